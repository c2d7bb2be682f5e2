package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu"
)

func init() {
	register("C15", "exploration", c15)
	register("C20", "exploration", c20)
	register("C24", "exploration", c24)
	register("C26", "exploration", c26)
}

const defaultChunk = 1 << 22

// world is a catalogue, the user's files, and a model of what the catalogue should say.
type world struct {
	c     *Ctx
	r     *rand.Rand
	base  string
	st    *Store
	want  Listing
	user  []string          // paths of the user's files
	data  map[string][]byte // content by hash
	log   []string
	seq   int
	dirs  int
	stale bool // a violation was found: the model is no longer meaningful
}

func newWorld(c *Ctx, r *rand.Rand) *world {
	base := c.Dir("w")
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	if err != nil {
		c.Fail("open-fails", base, "a fresh catalogue cannot be opened: %v", err)
		return nil
	}
	return &world{c: c, r: r, base: base, st: st, want: Listing{}, data: map[string][]byte{}}
}

func (w *world) logf(format string, args ...any) {
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *world) fail(sig, format string, args ...any) {
	w.stale = true
	w.c.Fail(sig, append([]string{}, w.log...), format, args...)
}

// makeFile creates a user file. Some contents occur repeatedly.
func (w *world) makeFile(size int) string {
	w.seq++
	p := filepath.Join(w.base, "user", fmt.Sprintf("d%d", w.r.IntN(3)), oddName(w.r, w.seq))
	data := randBytes(w.r, size)
	write(p, data)
	w.user = append(w.user, p)
	w.data[sum(data).String()] = data
	return p
}

func randHave(r *rand.Rand, n int) []int {
	var have []int
	p := r.IntN(5)
	for i := 0; i < n; i++ {
		if p == 4 || r.IntN(4) < p {
			have = append(have, i)
		}
	}
	r.Shuffle(len(have), func(i, j int) { have[i], have[j] = have[j], have[i] })
	return have
}

// step performs one random catalogue operation and updates the model.
func (w *world) step() {
	r, cat := w.r, w.st.Cat
	hashes := sortedKeys(w.want)
	pick := func() (string, *common.Sha1Hash) {
		if len(hashes) == 0 || r.IntN(8) == 0 {
			h := randHash(r)
			return h.String(), sha(h)
		}
		k := hashes[r.IntN(len(hashes))]
		h := &common.Sha1Hash{}
		h.FromStringSafe(k)
		return k, h
	}
	switch op := r.IntN(12); {
	case op < 3: // share
		var p string
		if len(w.user) > 0 && r.IntN(3) == 0 {
			p = w.user[r.IntN(len(w.user))]
		} else {
			size := []int{0, 1, r.IntN(100), r.IntN(5000), 4096, 8192}[r.IntN(6)]
			if r.IntN(25) == 0 {
				size = defaultChunk*(1+r.IntN(2)) + r.IntN(3) - 1
			}
			p = w.makeFile(size)
		}
		if r.IntN(10) == 0 {
			p += ".missing"
		}
		data, err := os.ReadFile(p)
		w.logf("share %q (%d bytes)", p, len(data))
		k := sum(data).String()
		_, dup := w.want[k]
		_, gerr := cat.ShareFile(p)
		if ok := err == nil && !dup; ok != (gerr == nil) {
			w.fail("op-result", "sharing %q: %v (missing: %v, already indexed: %v)", p, gerr, err != nil, dup)
			return
		}
		if gerr == nil {
			n := chunkCount(int64(len(data)), defaultChunk)
			w.want[k] = View{p, int64(len(data)), defaultChunk, n, n, memberString(func(i int) bool { return i < n }, n)}
			w.c.Obs("shares", 1)
		}
	case op < 5: // unshare
		k, h := pick()
		w.logf("unshare %s", k)
		_, had := w.want[k]
		if err := cat.UnshareFile(h); (err == nil) != had {
			w.fail("op-result", "unsharing %s: %v (indexed: %v)", k, err, had)
			return
		}
		delete(w.want, k)
		w.c.Obs("unshares", 1)
	case op < 8: // register a download
		w.seq++
		size := []int{1, 2, r.IntN(3000) + 1, r.IntN(200) + 1}[r.IntN(4)]
		chunk := 1 + r.IntN(size)
		if size/chunk > 300 {
			chunk = size/300 + 1
		}
		data := randBytes(r, size)
		k := sum(data).String()
		if r.IntN(8) == 0 && len(hashes) > 0 { // already there
			k = hashes[r.IntN(len(hashes))]
			data = w.data[k]
		}
		usize := uint64(len(data))
		if r.IntN(6) == 0 { // huge: never downloaded here
			usize = uint64(r.Uint32())<<8 + 1
			chunk = int(max(usize/60000, uint64(r.IntN(1<<30)))) + 1
			if r.IntN(2) == 0 {
				chunk = max(chunk&^(defaultChunk-1), defaultChunk) << r.IntN(2)
				usize = min(usize, uint64(chunk)*65536)
			}
		}
		h := &common.Sha1Hash{}
		h.FromStringSafe(k)
		name := oddName(r, w.seq)
		n := chunkCount(int64(usize), chunk)
		w.logf("register %s size %d chunk %d as %q", k, usize, chunk, name)
		_, dup := w.want[k]
		rec, err := cat.RegisterDownload(usize, uint32(n), uint32(chunk), h, name)
		if (err == nil) != !dup {
			w.fail("op-result", "registering %s: %v (already indexed: %v)", k, err, dup)
			return
		}
		if err == nil {
			w.data[k] = data
			w.want[k] = View{rec.FilePath, int64(usize), chunk, n, 0, ""}
			if filepath.Dir(rec.FilePath) != w.st.Down {
				w.fail("op-result", "registered to %q, outside of %q", rec.FilePath, w.st.Down)
			}
			w.c.Obs("registrations", 1)
		}
	default: // save chunks
		k, h := pick()
		v, had := w.want[k]
		data := w.data[k]
		if had && v.Size != int64(len(data)) {
			had = false // a huge one
			return
		}
		saves, have := 1+r.IntN(6), parseMembers(v.Members)
		burst := had && v.Count > 40 && r.IntN(3) == 0
		if burst { // most of the file
			saves = r.IntN(v.Count)
		}
		for i := 0; i < saves; i++ {
			idx := r.IntN(v.Count + 1)
			if burst && have[i] && r.IntN(4) > 0 {
				continue
			} else if burst {
				idx = i
			}
			if r.IntN(20) == 0 {
				idx = r.IntN(65536)
			}
			var d []byte
			if had {
				d = chunkOf(data, v.ChunkSize, idx)
			}
			if r.IntN(15) == 0 {
				d = append(bytes.Clone(d), 7)
			}
			ok := had && idx < v.Count && len(d) == len(chunkOf(data, v.ChunkSize, idx))
			w.logf("save chunk %d of %s (%d bytes)", idx, k, len(d))
			err := cat.SaveChunk(h, uint16(idx), d)
			if (err == nil) != ok {
				w.fail("op-result", "saving %d bytes as chunk %d of %+v: %v", len(d), idx, v, err)
				return
			}
			if ok {
				w.mark(k, idx)
				w.c.Obs("saves", 1)
			}
		}
	}
}

// mark records a chunk as available in the model.
func (w *world) mark(k string, idx int) {
	v := w.want[k]
	have := parseMembers(v.Members)
	have[idx] = true
	v.Have = len(have)
	v.Members = memberString(func(i int) bool { return have[i] }, v.Count)
	w.want[k] = v
}

func parseMembers(s string) map[int]bool {
	have := map[int]bool{}
	for _, f := range strings.Fields(s) {
		var a, b int
		fmt.Sscanf(f, "%d-%d", &a, &b)
		for i := a; i <= b; i++ {
			have[i] = true
		}
	}
	return have
}

// check compares the open catalogue with the model.
func (w *world) check(sig, when string) bool {
	l, err := listing(w.st.Cat)
	if err != nil {
		w.fail(sig, "%s: %v", when, err)
		return false
	}
	if d := l.diff(w.want); d != "" {
		w.fail(sig, "%s: %s", when, d)
		return false
	}
	w.c.Obs("listings compared", 1)
	w.c.Obs("entries compared", len(l))
	return true
}

func copyTree(from, to string) {
	must(filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if info.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), data, 0644)
	}))
}

func c15(c *Ctx) {
	c.Rule(`random sequences of 5..40 share / unshare / register / save-chunk operations (valid and invalid) on a catalogue with odd
		file names, sizes 0 to 2^40 and up to 60000 chunks; the catalogue is re-opened at random points in place, after a
		move and after a copy, in this process and in another one, and its full listing is compared with a model.
		Distinct by operation sequence.`)
	Par(8, c.N(400, 8000), func(k int) {
		r := c.Rng("hist", k)
		w := newWorld(c, r)
		if w == nil {
			return
		}
		defer c.rm(w.base)
		c.Await("catalogue", &w.log, func() {
			frozen := map[string]Tree{} // directories that nothing may touch any more
			steps := 5 + r.IntN(36)
			for s := 0; s < steps && !w.stale; s++ {
				w.step()
				if w.stale || !(r.IntN(6) == 0 || s == steps-1) {
					continue
				}
				if !w.check("listing", "before re-opening") {
					return
				}
				if r.IntN(4) == 0 { // files vanish or shrink: the index is about what was indexed
					for _, v := range w.want {
						switch r.IntN(4) {
						case 0:
							os.Remove(v.Path)
						case 1:
							if info, err := os.Lstat(v.Path); err == nil && info.Mode().IsRegular() {
								os.Truncate(v.Path, info.Size()/2)
							}
						}
					}
					w.logf("files vanish")
					c.Obs("re-openings after files have vanished", 1)
				}
				before := tree(filepath.Join(w.base, "user"), treeTimes)
				downBefore := tree(w.st.Down, treeTimes)
				dir, how := w.st.Dir, "in place"
				switch r.IntN(5) {
				case 0:
					w.dirs++
					dir, how = filepath.Join(w.base, fmt.Sprintf("moved%d", w.dirs), "cat"), "after a move"
					must(os.MkdirAll(filepath.Dir(dir), 0755))
					must(os.Rename(w.st.Dir, dir))
					frozen[w.st.Dir] = tree(w.st.Dir, treeContent)
				case 1:
					w.dirs++
					dir, how = filepath.Join(w.base, fmt.Sprintf("copy%d", w.dirs)), "after a copy"
					copyTree(w.st.Dir, dir)
					frozen[w.st.Dir] = tree(w.st.Dir, treeTimes)
				}
				w.logf("re-open %s", how)
				c.Obs("re-openings "+how, 1)
				if r.IntN(4) == 0 { // in another process first
					out, err := exec.Command(filepath.Join(c.Bin, "mon"), "catlist", dir, w.st.Down).Output()
					var res struct {
						Listing Listing
						Error   string
					}
					if err != nil || json.Unmarshal(out, &res) != nil {
						res.Error = fmt.Sprintf("opening it killed the process: %v", err)
					}
					want := w.want.clone()
					for k, v := range want {
						v.Path = fmt.Sprintf("%x", v.Path)
						want[k] = v
					}
					if res.Error == "" {
						res.Error = res.Listing.diff(want)
					}
					if res.Error != "" {
						w.fail("reopen", "in another process, %s: %s", how, res.Error)
						return
					}
					c.Obs("re-openings by another process", 1)
				}
				st, err := openStore(dir, w.st.Down)
				if err != nil {
					w.fail("reopen", "cannot be opened again %s: %v", how, err)
					return
				}
				w.st = st
				if r.IntN(2) == 0 { // the first thing done with it is another
					for n := r.IntN(4); n >= 0 && !w.stale; n-- {
						w.step()
					}
					c.Obs("re-openings without a listing", 1)
					if w.stale || !w.check("reopen", "operations after it was re-opened "+how) {
						return
					}
					continue
				}
				if !w.check("reopen", "re-opened "+how) {
					return
				}
				if d := tree(filepath.Join(w.base, "user"), treeTimes).diff(before); len(d) > 0 {
					w.fail("reopen-touches", "opening changed the user's files: %v", d)
				}
				if d := tree(w.st.Down, treeTimes).diff(downBefore); len(d) > 0 {
					w.fail("reopen-touches", "opening changed the downloads: %v", d)
				}
			}
			if w.stale {
				return
			}
			for dir, t := range frozen {
				opt := treeTimes
				if len(t) == 1 {
					opt = treeContent
				}
				if d := tree(dir, opt).diff(t); len(d) > 0 {
					w.fail("touches-elsewhere", "a catalogue opened elsewhere changed %s: %v", dir, d)
				}
			}
		})
		c.Eval(strings.Join(w.log, "\n"))
		if k < 2 {
			c.Sample("history", w.log[:min(len(w.log), 12)])
		}
	})
}

func c20(c *Ctx) {
	c.Rule(`catalogues of 1..12 shared and partially downloaded files, each left alone or modified (bytes changed with the same
		length and time, truncated, extended, deleted, swapped, replaced by a directory, pipe or link); then clean, listing,
		serving, sharing and unsharing; the report, the listing and every user file (content, inode, times) are compared.
		Then cleaning while the process can open 0..3 more files, alone or while others open and close some: no entry of
		an unchanged file may go. Distinct by set of files and modifications.`)
	Par(8, c.N(500, 12000), func(k int) {
		r := c.Rng("clean", k)
		w := newWorld(c, r)
		if w == nil {
			return
		}
		defer c.rm(w.base)
		srv := flu.NewServer(1000, w.st.Cat)
		methods := cli.NewMethods(w.st.Cat, srv)
		c.Await("clean", &w.log, func() {
			type item struct {
				path    string
				partial bool
			}
			items := map[string]*item{}
			n := 1 + r.IntN(12)
			for i := 0; i < n; i++ {
				if r.IntN(3) > 0 {
					size := []int{0, 1, 10, 4095, 4096, 4097, r.IntN(20000), 8192, 65536 + r.IntN(100000)}[r.IntN(9)]
					if r.IntN(60) == 0 {
						size = defaultChunk + r.IntN(3) - 1
					}
					p := w.makeFile(size)
					data, _ := readReg(p)
					hk := sum(data).String()
					if items[hk] != nil {
						continue // a second empty file
					}
					var li cli.ListItem
					if err := methods.Share(&cli.ShareRequest{Filepath: p}, &li); err != nil {
						w.fail("share", "sharing %q: %v", p, err)
						return
					}
					items[hk] = &item{path: p}
					w.logf("shared %q (%d bytes)", p, size)
				} else {
					data := randBytes(r, 1+r.IntN(4000))
					chunk := 1 + r.IntN(len(data)) + len(data)/200
					cnt := chunkCount(int64(len(data)), chunk)
					have := randHave(r, cnt)
					p, err := w.st.seed(data, chunk, oddName(r, 1000+i), have)
					if err != nil {
						w.fail("seed", "%v", err)
						return
					}
					w.data[sum(data).String()] = data
					items[sum(data).String()] = &item{path: p, partial: len(have) < cnt}
					w.logf("download %q has %d of %d chunks", p, len(have), cnt)
				}
			}
			before, err := listing(w.st.Cat)
			if err != nil {
				w.fail("listing", "%v", err)
				return
			}
			if r.IntN(2) == 0 {
				if _, st, err := reopened(w.st.Dir, w.st.Down); err == nil {
					w.st = st
					srv = flu.NewServer(1000, w.st.Cat)
					methods = cli.NewMethods(w.st.Cat, srv)
					w.logf("re-opened")
				}
			}
			// modify
			keys := sortedKeys(items)
			for _, hk := range keys {
				it := items[hk]
				st, err := os.Stat(it.path)
				if err != nil {
					continue // a download without any chunk
				}
				data, _ := readReg(it.path)
				mod := r.IntN(16)
				switch {
				case mod == 0:
					os.Remove(it.path)
				case mod == 1:
					must(os.Truncate(it.path, st.Size()/2))
				case mod == 2:
					write(it.path, append(data, byte(r.Uint32())))
				case mod == 3 && len(data) > 0: // same length, same times
					data[r.IntN(len(data))] ^= 1 << r.IntN(8)
					write(it.path, data)
					must(os.Chtimes(it.path, st.ModTime(), st.ModTime()))
				case mod == 4 && len(data) > 0: // only the last or first byte
					data[[]int{0, len(data) - 1}[r.IntN(2)]] ^= 255
					write(it.path, data)
				case mod == 5: // swapped with another
					o := items[keys[r.IntN(len(keys))]]
					od, err := readReg(o.path)
					if err == nil && o != it {
						write(it.path, od)
						write(o.path, data)
					}
				case mod == 6:
					os.Remove(it.path)
					must(os.Mkdir(it.path, 0755))
				case mod == 7:
					os.Remove(it.path)
					must(syscall.Mkfifo(it.path, 0644))
				case mod == 8: // still the same content, through a link
					must(os.Rename(it.path, it.path[:len(it.path)-2]+"@"))
					must(os.Symlink(it.path[:len(it.path)-2]+"@", it.path))
				case mod == 9: // rewritten with the same content
					os.Remove(it.path)
					write(it.path, data)
				case mod == 10:
					must(os.Chtimes(it.path, time.Unix(1e9, 0), time.Unix(1e9, 0)))
				case mod == 11:
					must(os.Truncate(it.path, st.Size()+4096))
				case mod == 12 || mod == 13: // new content is shared from the same path
					old := data
					data := randBytes(r, []int{len(data), 1 + r.IntN(9000)}[r.IntN(2)])
					if _, known := items[sum(data).String()]; known || len(data) == 0 {
						break
					}
					write(it.path, data)
					var li cli.ListItem
					if err := methods.Share(&cli.ShareRequest{Filepath: it.path}, &li); err != nil {
						w.fail("share", "sharing %q again with new content: %v", it.path, err)
						return
					}
					if mod == 13 { // and then the old content is back
						write(it.path, old)
					}
				default:
					mod = 99
				}
				w.logf("modification %d of %q", mod, it.path)
				c.Obs(fmt.Sprintf("modification %02d", mod), 1)
			}
			if before, err = listing(w.st.Cat); err != nil {
				w.fail("listing", "%v", err)
				return
			}
			userBefore := tree(filepath.Join(w.base, "user"), treeTimes)
			downBefore := tree(w.st.Down, treeTimes)
			untouched := func(after string) {
				if d := tree(filepath.Join(w.base, "user"), treeTimes).diff(userBefore); len(d) > 0 {
					w.fail("touches-user-files", "after %s: %v", after, d)
				}
				if d := tree(w.st.Down, treeTimes).diff(downBefore); len(d) > 0 {
					w.fail("touches-user-files", "after %s: %v", after, d)
				}
			}
			want := before.clone()
			either := map[string]bool{}
			current := map[string]Hash{}
			for hk, v := range before {
				var cur Hash
				info, err := os.Stat(v.Path)
				ok := err == nil && info.Mode().IsRegular()
				if ok {
					data, _ := readReg(v.Path)
					cur = sum(data)
					current[hk] = cur
				}
				if v.Have < v.Count {
					if !ok {
						either[hk] = true // nothing is promised about a partial download whose file is gone
					}
				} else if !ok || cur.String() != hk {
					delete(want, hk)
				}
			}
			// serve and list before cleaning
			var lr cli.ListResponse
			if err := methods.List(&cli.ListRequest{Sha1Hash: sha(blankHash)}, &lr); err != nil || len(lr.Items) != len(before) {
				w.fail("list", "listing: %v, %d items instead of %d", err, len(lr.Items), len(before))
			}
			for hk, v := range before {
				for i := 0; i < min(v.Count, 3); i++ {
					h := &common.Sha1Hash{}
					h.FromStringSafe(hk)
					if rd, err := w.st.Cat.GetChunkReader(h, int64(i)); err == nil {
						buf := make([]byte, 100)
						rd.Read(buf)
						rd.Close()
					}
				}
			}
			untouched("listing and serving")
			if w.stale {
				return
			}
			var rep cli.CleanResponse
			if err := methods.Clean(&cli.CleanRequest{}, &rep); err != nil {
				w.fail("clean-fails", "clean: %v", err)
				return
			}
			untouched("clean")
			after, err := listing(w.st.Cat)
			if err != nil {
				w.fail("listing", "after clean: %v", err)
				return
			}
			for hk := range either {
				if _, ok := after[hk]; !ok {
					delete(want, hk)
				}
			}
			if d := after.diff(want); d != "" {
				w.fail("clean-removes", "after clean: %s", d)
			}
			// the report
			seen := map[string]bool{}
			for _, it := range rep.Items {
				hk := Hash(it.IndexedSha1Hash).String()
				v, ok := before[hk]
				if !ok || seen[hk] || v.Path != it.FilePath {
					w.fail("clean-report", "the report has %q with %s (again: %v), which was indexed as %+v", it.FilePath, hk, seen[hk], v)
					continue
				}
				seen[hk] = true
				_, kept := after[hk]
				said := strings.Contains(strings.ToLower(it.ActionTaken), "removed")
				if kept == said {
					w.fail("clean-report", "%q was kept: %v, but the report says %q", it.FilePath, kept, it.ActionTaken)
				}
				cur, readable := current[hk]
				if readable && Hash(it.CurrentSha1Hash) != cur {
					w.fail("clean-report", "%q has the current hash %v but is reported as %x", it.FilePath, cur, it.CurrentSha1Hash)
				}
				if !readable && Hash(it.CurrentSha1Hash) != blankHash {
					w.fail("clean-report", "%q cannot be read but is reported with hash %x", it.FilePath, it.CurrentSha1Hash)
				}
				if !strings.Contains(rep.Sprintf(), it.ActionTaken) || !strings.Contains(it.ActionTaken, it.FilePath) {
					w.fail("clean-report", "the printed report does not mention %q", it.FilePath)
				}
				if said && readable && !(strings.Contains(it.ActionTaken, hk) && strings.Contains(it.ActionTaken, cur.String())) {
					w.fail("clean-report", "the report on %q lacks its hashes: %q", it.FilePath, it.ActionTaken)
				}
			}
			if len(seen) != len(before) {
				w.fail("clean-report", "the report has %d of %d entries", len(seen), len(before))
			}
			c.Obs("report items", len(rep.Items))
			c.Obs("removed", len(before)-len(after))
			if l, _, err := reopened(w.st.Dir, w.st.Down); err != nil || l.diff(after) != "" {
				w.fail("clean-reopen", "re-opened after clean: %v %s", err, l.diff(after))
			}
			// again: nothing is left to remove, apart from what is unspecified
			var rep2 cli.CleanResponse
			methods.Clean(&cli.CleanRequest{}, &rep2)
			for hk := range after {
				h := &common.Sha1Hash{}
				h.FromStringSafe(hk)
				if _, err := w.st.Cat.Contains(h); err != nil && !either[hk] {
					w.fail("clean-removes", "cleaning again removes %s", hk)
				}
				w.st.Cat.UnshareFile(h)
			}
			untouched("cleaning again and unsharing everything")
		})
		c.Eval(strings.Join(w.log, "\n"))
		if k < 2 {
			c.Sample("case", w.log[:min(len(w.log), 14)])
		}
	})
	c20Many(c)
	c20Few(c)
}

// c20Many cleans a catalogue of very many files.
func c20Many(c *Ctx) {
	for k := 0; k < c.N(1, 3) && c.Failed() == 0; k++ {
		r := c.Rng("many", k)
		n := c.N(1300, 6000) + r.IntN(300)
		base := c.Dir("many")
		st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
		must(err)
		gone := map[Hash]bool{} // by hash: whether the entry must go
		paths := map[Hash]string{}
		for i := 0; i < n; i++ {
			if i%100 == 0 {
				c.Beat()
			}
			p := filepath.Join(base, "user", fmt.Sprint(i))
			data := fmt.Appendf(nil, "%d %x", i, r.Uint64())
			write(p, data)
			if _, err := st.Cat.ShareFile(p); err != nil {
				c.Fail("share", i, "%v", err)
				return
			}
			h := sum(data)
			paths[h] = p
			switch r.IntN(3) {
			case 0:
				os.Remove(p)
				gone[h] = true
			case 1:
				write(p, append(data, 'x'))
				gone[h] = true
			}
		}
		m := cli.NewMethods(st.Cat, flu.NewServer(1000, st.Cat))
		kase := map[string]any{"files": n, "stale": len(gone)}
		var rep cli.CleanResponse
		c.Await("clean many", kase, func() {
			if err := m.Clean(&cli.CleanRequest{}, &rep); err != nil {
				c.Fail("clean-fails", kase, "%v", err)
			}
		})
		after, err := listing(st.Cat)
		if err != nil || len(after) != n-len(gone) {
			c.Fail("clean-removes", kase, "%d entries are left, want %d (%v)", len(after), n-len(gone), err)
			return
		}
		seen := map[Hash]bool{}
		for _, it := range rep.Items {
			h := Hash(it.IndexedSha1Hash)
			if _, kept := after[h.String()]; kept == gone[h] || seen[h] || it.FilePath != paths[h] || gone[h] != strings.Contains(strings.ToLower(it.ActionTaken), "removed") {
				c.Fail("clean-report", kase, "%q: in the index: %v, stale: %v, reported before: %v, report: %q", it.FilePath, kept, gone[h], seen[h], it.ActionTaken)
				return
			}
			seen[h] = true
		}
		if len(seen) != n {
			c.Fail("clean-report", kase, "the report has %d of %d entries", len(seen), n)
		}
		c.ObsMax("most files cleaned at once", n)
		c.Eval(fmt.Sprint("many ", n))
		c.rm(base)
	}
}

// fewFiles lets the process open only so many more files while f runs.
func fewFiles(free int, f func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
	now := len(ownFDs()) + 40
	must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(now), Max: old.Max}))
	var held []int
	for {
		fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			break
		}
		held = append(held, fd)
	}
	for ; free > 0 && len(held) > 0; free-- {
		syscall.Close(held[0])
		held = held[1:]
	}
	defer func() {
		for _, fd := range held {
			syscall.Close(fd)
		}
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old))
	}()
	f()
}

// c20Few cleans while the process can open hardly any file.
func c20Few(c *Ctx) {
	for k := 0; k < c.N(120, 1500) && c.Failed() == 0; k++ {
		r := c.Rng("few", k)
		w := newWorld(c, r)
		if w == nil {
			return
		}
		methods := cli.NewMethods(w.st.Cat, flu.NewServer(1000, w.st.Cat))
		c.Await("clean with few files", &w.log, func() {
			stale := map[string]bool{}
			for i := 0; i < 2+r.IntN(8); i++ {
				if r.IntN(4) == 0 {
					data := randBytes(r, 200)
					_, err := w.st.seed(data, 50, oddName(r, 1000+i), []int{0, 2})
					must(err)
					continue
				}
				p := w.makeFile(10 + r.IntN(9000))
				rec, err := w.st.Cat.ShareFile(p)
				if err != nil {
					w.fail("share", "sharing %q: %v", p, err)
					return
				}
				switch r.IntN(5) {
				case 0:
					os.Remove(p)
					stale[rec.Sha1Hash.String()] = true
				case 1:
					write(p, randBytes(r, 30))
					stale[rec.Sha1Hash.String()] = true
				}
			}
			before, err := listing(w.st.Cat)
			if err != nil {
				w.fail("listing", "%v", err)
				return
			}
			user := func() []Tree {
				return []Tree{tree(filepath.Join(w.base, "user"), treeTimes), tree(w.st.Down, treeTimes)}
			}
			userBefore := user()
			free := []int{0, 0, 1, 1, 2, 3}[r.IntN(6)]
			w.logf("%d entries, %d stale, %d files can be opened", len(before), len(stale), free)
			var rep cli.CleanResponse
			var opens, failed int
			fewFiles(free, func() {
				err = methods.Clean(&cli.CleanRequest{}, &rep)
				if k%3 == 0 { // and while others open and close files
					stop := make(chan bool)
					done := make(chan bool)
					go func() {
						defer close(done)
						for {
							select {
							case <-stop:
								return
							default:
							}
							opens++
							if fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0); err == nil {
								syscall.Close(fd)
							} else {
								failed++
							}
						}
					}()
					for x := 0; x < 10; x++ {
						err = methods.Clean(&cli.CleanRequest{}, &cli.CleanResponse{})
					}
					close(stop)
					<-done
				}
			})
			w.logf("clean: %v", err)
			if err != nil {
				c.Obs("cleans that failed for lack of descriptors", 1)
			} else {
				c.Obs("cleans that succeeded with few descriptors", 1)
			}
			after, lerr := listing(w.st.Cat)
			if lerr != nil {
				w.fail("listing", "after clean: %v", lerr)
				return
			}
			for hk, v := range before {
				if _, ok := after[hk]; !ok && !stale[hk] {
					w.fail("clean-removes", "clean while only %d files can be opened removes %q, which is as it was", free, v.Path)
				} else if ok && stale[hk] && err == nil {
					w.fail("clean-keeps", "clean reports no error but keeps %q, which is missing or changed", v.Path)
				}
			}
			for i, now := range user() {
				if d := now.diff(userBefore[i]); len(d) > 0 {
					w.fail("touches-user-files", "after clean: %v", d)
				}
			}
			// with enough files again
			if err := methods.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}); err != nil {
				w.fail("clean-fails", "once files can be opened again: %v", err)
			}
			want := before.clone()
			for hk := range stale {
				delete(want, hk)
			}
			for when, l := range map[string]func() (Listing, error){
				"in memory": func() (Listing, error) { return listing(w.st.Cat) },
				"re-opened": func() (Listing, error) { l, _, err := reopened(w.st.Dir, w.st.Down); return l, err },
			} {
				if got, err := l(); err != nil || got.diff(want) != "" {
					w.fail("clean-removes", "%s, once files can be opened again: %v %s", when, err, got.diff(want))
				}
			}
		})
		c.Eval("few descriptors " + strings.Join(w.log, "\n"))
		c.rm(w.base)
	}
}

// checkReader reads a chunk in pieces and compares. It returns what it read.
func checkReader(c *Ctx, kase string, rd *common.ChunkReader, want []byte, r *rand.Rand) {
	if rd.Size != int64(len(want)) || rd.Hash.Data != sum(want) {
		c.Fail("chunk-header", kase, "%s: reader announces %d bytes with hash %v, want %d with %v", kase, rd.Size, rd.Hash.String(), len(want), sum(want))
	}
	for pass := 0; pass < 2; pass++ {
		var got []byte
		for reads := 0; ; reads++ {
			n := []int{1, 7, 1000, 1024, 4096, 4097, 70000, len(want), len(want) + 1, r.IntN(5000) + 1}[r.IntN(10)]
			if n == 0 {
				n = 1
			}
			if len(want) > 200000 && n < 1000 {
				n = 65536
			}
			buf := make([]byte, n)
			before := uint32(len(got))
			if o := rd.Offset(); o != before {
				c.Fail("chunk-offset", kase, "%s: offset %d after reading %d bytes", kase, o, before)
			}
			m, off, err := rd.Read(buf)
			if off != before {
				c.Fail("chunk-offset", kase, "%s: a read after %d bytes reports offset %d", kase, before, off)
			}
			got = append(got, buf[:min(max(m, 0), n)]...)
			if err == io.EOF {
				break
			}
			if err != nil || m == 0 || len(got) > len(want) {
				c.Fail("chunk-read", kase, "%s: read %d bytes of %d, then %d, %v", kase, len(got), len(want), m, err)
				return
			}
			if pass == 0 && reads == 1 && r.IntN(3) == 0 {
				rd.Reset()
				got = nil
			}
		}
		if !bytes.Equal(got, want) {
			c.Fail("chunk-bytes", kase, "%s: %s", kase, firstDiff(got, want))
			return
		}
		if err := rd.Reset(); err != nil {
			c.Fail("chunk-rewind", kase, "%s: %v", kase, err)
			return
		}
	}
	c.Obs("chunks read", 1)
	c.Obs("chunk bytes read", len(want))
}

func c24(c *Ctx) {
	c.Rule(`files of sizes 0, 1 and around multiples of 4096 (the hash buffer) and of the chunk size are shared (4 MiB chunks) or stored
		with chunk sizes from 1 byte up; hash, size and chunk count are compared, and all chunks are read in index order
		with read buffers of 1 to 70000 bytes and rewound; also files shared through links and odd paths, chunks beyond 4 GiB
		of registered files, and whole files of more than 4 GiB (nearly all holes). Distinct by (size, chunk size).`)
	// shared files
	var sizes []int
	for _, base := range []int{0, 4096, 8192, 12288, 65536, 1 << 20} {
		for d := -2; d <= 2; d++ {
			if base+d >= 0 {
				sizes = append(sizes, base+d)
			}
		}
	}
	for _, m := range []int{1, 2, 3}[:c.N(2, 3)] {
		for _, d := range []int{-1, 0, 1, 4095, 1000000} {
			sizes = append(sizes, m*defaultChunk+d)
		}
	}
	rr := c.Rng("sizes", 0)
	for i := 0; i < c.N(120, 1500); i++ {
		sizes = append(sizes, rr.IntN([]int{100, 5000, 100000}[i%3]))
	}
	Par(8, len(sizes), func(k int) {
		r := c.Rng("share", k)
		size := sizes[k]
		st := newStore(c)
		defer c.rm(filepath.Dir(st.Dir))
		data := randBytes(r, size)
		if r.IntN(6) == 0 {
			clear(data)
		}
		p := filepath.Join(filepath.Dir(st.Dir), "f")
		write(p, data)
		kase := fmt.Sprintf("shared file of %d bytes", size)
		c.Await("share", kase, func() {
			rec, err := st.Cat.ShareFile(p)
			if err != nil {
				c.Fail("share-fails", kase, "%s: %v", kase, err)
				return
			}
			h := sum(data)
			if rec.Sha1Hash.Data != h || rec.SizeInBytes != int64(size) || rec.FilePath != p {
				c.Fail("share-result", kase, "%s: indexed as %v, %d bytes at %s", kase, rec.Sha1Hash.String(), rec.SizeInBytes, rec.FilePath)
			}
			if hf, err := common.HashFile(p); err != nil || hf.Data != h {
				c.Fail("hash-file", kase, "%s: HashFile gives %v %v, want %v", kase, hf, err, h)
			}
			ir, err := st.Cat.Contains(sha(h))
			if err != nil {
				c.Fail("share-result", kase, "%s: %v", kase, err)
				return
			}
			cs := ir.ChunkSize
			if cs < 1 || ir.Progress.Size() != chunkCount(int64(size), cs) || ir.Progress.Count() != ir.Progress.Size() || ir.SizeInBytes != int64(size) {
				c.Fail("chunk-count", kase, "%s: chunk size %d, %d chunks, %d available", kase, cs, ir.Progress.Size(), ir.Progress.Count())
				return
			}
			for i := 0; i < ir.Progress.Size(); i++ {
				rd, err := st.Cat.GetChunkReader(sha(h), int64(i))
				if err != nil {
					c.Fail("chunk-open", kase, "%s: chunk %d: %v", kase, i, err)
					return
				}
				checkReader(c, fmt.Sprintf("%s, chunk %d", kase, i), rd, chunkOf(data, cs, i), r)
				rd.Close()
			}
			if rd, err := st.Cat.GetChunkReader(sha(h), int64(ir.Progress.Size())); err == nil {
				c.Fail("chunk-open", kase, "%s: chunk %d can be read (%d bytes)", kase, ir.Progress.Size(), rd.Size)
			}
		})
		c.Eval(kase)
		c.Sample("shared", kase)
	})
	// files under other names than their own
	Par(8, c.N(60, 600), func(k int) {
		r := c.Rng("alias", k)
		st := newStore(c)
		dir := filepath.Join(filepath.Dir(st.Dir), "user")
		defer c.rm(filepath.Dir(st.Dir))
		data := randBytes(r, r.IntN(9000))
		own := filepath.Join(dir, "deep", "own")
		write(own, data)
		must(os.Symlink(filepath.Join(dir, "deep"), filepath.Join(dir, "linked")))
		must(os.Symlink("deep/own", filepath.Join(dir, "link")))
		must(os.Symlink("link", filepath.Join(dir, "link to a link")))
		must(os.Link(own, filepath.Join(dir, "hard")))
		p := dir + "/" + []string{"deep/own", "link", "link to a link", "hard", "linked/own", "deep/../deep/./own", "deep//own", "deep/../hard", "../user/link"}[k%9]
		kase := fmt.Sprintf("%d bytes shared as %s", len(data), p[len(dir):])
		c.Await("share", kase, func() {
			rec, err := st.Cat.ShareFile(p)
			if err != nil {
				c.Fail("share-fails", kase, "%s: %v", kase, err)
				return
			}
			h := sum(data)
			if rec.Sha1Hash.Data != h || rec.SizeInBytes != int64(len(data)) {
				c.Fail("share-result", kase, "%s: indexed as %v, %d bytes", kase, rec.Sha1Hash.String(), rec.SizeInBytes)
				return
			}
			ir, err := st.Cat.Contains(sha(h))
			if err != nil {
				c.Fail("share-result", kase, "%s: %v", kase, err)
				return
			}
			if n := chunkCount(int64(len(data)), ir.ChunkSize); ir.Progress.Size() != n || ir.Progress.Count() != n {
				c.Fail("chunk-count", kase, "%s: %d of %d chunks, want %d", kase, ir.Progress.Count(), ir.Progress.Size(), n)
			} else if n > 0 {
				if rd, err := st.Cat.GetChunkReader(sha(h), 0); err != nil {
					c.Fail("chunk-open", kase, "%s: %v", kase, err)
				} else {
					checkReader(c, kase, rd, data, r)
					rd.Close()
				}
			}
		})
		c.Eval(kase)
		c.Obs("files shared through links and other paths", 1)
	})
	// chunks far into a file
	Par(4, c.N(12, 100), func(k int) {
		r := c.Rng("far", k)
		st := newStore(c)
		defer c.rm(filepath.Dir(st.Dir))
		chunk := []int{1 << 20, 4 << 20, 70000, 4<<20 + 1}[k%4]
		n := []int{65536, 40000, 33000, 8200, 62000}[k%5]
		size := int64(chunk)*int64(n-1) + int64(1+r.IntN(chunk))
		h := sum(randBytes(r, 20))
		kase := fmt.Sprintf("%d chunks of %d, %d bytes", n, chunk, size)
		c.Await("far", kase, func() {
			if _, err := st.Cat.RegisterDownload(uint64(size), uint32(n), uint32(chunk), sha(h), "big"); err != nil {
				c.Fail("chunk-open", kase, "%s: %v", kase, err)
				return
			}
			want := map[int][]byte{}
			for _, i := range []int{0, int(1 << 32 / int64(chunk) % int64(n)), n - 1, 1 + r.IntN(n-2)} {
				data := randBytes(r, int(min(int64(chunk), size-int64(i)*int64(chunk))))
				if err := st.Cat.SaveChunk(sha(h), uint16(i), data); err != nil {
					c.Fail("chunk-save", kase, "%s: chunk %d: %v", kase, i, err)
					return
				}
				want[i] = data
			}
			for i, data := range want {
				if rd, err := st.Cat.GetChunkReader(sha(h), int64(i)); err != nil {
					c.Fail("chunk-open", kase, "%s: chunk %d: %v", kase, i, err)
				} else {
					checkReader(c, fmt.Sprintf("%s, chunk %d", kase, i), rd, data, r)
					rd.Close()
				}
				c.Obs("far chunks read", 1)
			}
		})
		c.Eval(kase)
	})
	c24Large(c)
	// other chunk sizes
	Par(8, c.N(700, 12000), func(k int) {
		r := c.Rng("chunks", k)
		chunk := []int{1, 2, 3, 999, 1000, 1001, 4095, 4096, 4097, 8192, 65536, 1 + r.IntN(9000)}[r.IntN(12)]
		n := 1 + r.IntN(12)
		size := max(1, chunk*n+[]int{-chunk, -1, 0, 1, r.IntN(chunk)}[r.IntN(5)])
		size = min(size, 300000)
		st := newStore(c)
		defer c.rm(filepath.Dir(st.Dir))
		data := randBytes(r, size)
		h := sum(data)
		kase := fmt.Sprintf("%d bytes in chunks of %d", size, chunk)
		c.Await("chunks", kase, func() {
			p, err := st.seed(data, chunk, "f", nil)
			if err != nil {
				c.Fail("chunk-save", kase, "%s: %v", kase, err)
				return
			}
			cnt := chunkCount(int64(size), chunk)
			ir, err := st.Cat.Contains(sha(h))
			if err != nil || ir.Progress.Size() != cnt || ir.Progress.Count() != cnt || !st.Cat.FileComplete(sha(h)) {
				c.Fail("chunk-count", kase, "%s: %d of %d chunks, want %d: %v", kase, ir.Progress.Count(), ir.Progress.Size(), cnt, err)
				return
			}
			if disk, _ := os.ReadFile(p); !bytes.Equal(disk, data) {
				c.Fail("chunk-save", kase, "%s: all chunks saved, but %s", kase, firstDiff(disk, data))
			}
			var all []byte
			for i := 0; i < cnt; i++ {
				rd, err := st.Cat.GetChunkReader(sha(h), int64(i))
				if err != nil {
					c.Fail("chunk-open", kase, "%s: chunk %d: %v", kase, i, err)
					return
				}
				want := chunkOf(data, chunk, i)
				if i%7 == 0 || i == cnt-1 {
					checkReader(c, fmt.Sprintf("%s, chunk %d", kase, i), rd, want, r)
				}
				piece, _ := io.ReadAll(&rd.Reader)
				all = append(all, piece...)
				if rd.Size != int64(len(want)) || rd.Hash.Data != sum(want) {
					c.Fail("chunk-header", kase, "%s: chunk %d announces %d bytes", kase, i, rd.Size)
				}
				rd.Close()
			}
			if !bytes.Equal(all, data) {
				c.Fail("chunk-partition", kase, "%s: the chunks together differ: %s", kase, firstDiff(all, data))
			}
		})
		c.Eval(kase)
		c.Sample("stored", kase)
	})
	// chunk readers directly over sections
	Par(8, c.N(600, 10000), func(k int) {
		r := c.Rng("section", k)
		data := randBytes(r, r.IntN(20000))
		off := r.IntN(len(data) + 1)
		n := r.IntN(len(data) + 5000)
		kase := fmt.Sprintf("section at %d length %d of %d bytes", off, n, len(data))
		c.Guard("section-panic", kase, func() {
			rd := common.NewChunkReader(io.NewSectionReader(bytes.NewReader(data), int64(off), int64(n)))
			checkReader(c, kase, rd, data[off:min(off+n, len(data))], r)
		})
		c.Eval(kase)
	})
}

// c24Large shares files of more than 4 GiB, nearly all holes.
func c24Large(c *Ctx) {
	Par(3, c.N(2, 7), func(k int) {
		r := c.Rng("large", k)
		st := newStore(c)
		base := filepath.Dir(st.Dir)
		defer c.rm(base)
		size := int64(1<<32) + []int64{0, 5, 0, defaultChunk, 1 << 30}[k%5] + int64(k)*1000
		dir := base
		if k == 0 || k > 4 {
			// just more than 65536 chunks of the usual size. This takes minutes, and less where holes need no cache.
			size = 1<<38 + []int64{77, 5*defaultChunk + 77, 1 << 38}[max(0, k-4)]
			if shm, err := os.MkdirTemp("/dev/shm", "verif-mon."); err == nil {
				defer os.RemoveAll(shm)
				dir = shm
			}
		}
		p := filepath.Join(dir, "large")
		f, err := os.Create(p)
		must(err)
		defer f.Close()
		must(f.Truncate(size))
		marks := map[int64][]byte{}
		for _, at := range []int64{0, 1<<31 - 3, 1<<32 - 3, size - 3} {
			b := randBytes(r, 3)
			_, err := f.WriteAt(b, at)
			must(err)
			marks[at] = b
		}
		done := make(chan Hash, 1)
		go func() {
			hash := sha1.New()
			in, _ := os.Open(p)
			io.Copy(hash, in)
			in.Close()
			done <- Hash(hash.Sum(nil))
		}()
		kase := fmt.Sprintf("a file of %d bytes", size)
		ended := make(chan struct{})
		late := make(chan bool, 1)
		go func() { // takes some seconds
			for s := 0; ; s++ {
				select {
				case <-ended:
					late <- false
					return
				case <-time.After(time.Second):
					c.Beat()
				}
				if s == c.N(540, 7200) {
					f.Truncate(0) // too slow here: nothing is known
					late <- true
					return
				}
			}
		}()
		_, err = st.Cat.ShareFile(p)
		h := <-done
		close(ended)
		if <-late {
			c.Obs("files that take too long to read", 1)
			return
		}
		if err != nil {
			c.Fail("share-fails", kase, "%s: %v", kase, err)
			return
		}
		rec, err := st.Cat.Contains(sha(h))
		if err != nil {
			c.Fail("share-result", kase, "%s: indexed with another SHA-1 than %v: %v", kase, h, err)
			return
		}
		n := chunkCount(size, rec.ChunkSize)
		if rec.Sha1Hash.Data != h || rec.SizeInBytes != size || n > 65536 || rec.Progress.Size() != n || rec.Progress.Count() != n {
			c.Fail("share-result", kase, "%s: indexed as %v, %d bytes, %d of %d chunks of %d; its SHA-1 is %v", kase, rec.Sha1Hash.String(), rec.SizeInBytes, rec.Progress.Count(), rec.Progress.Size(), rec.ChunkSize, h)
			return
		}
		for at := range marks {
			i := at / int64(rec.ChunkSize)
			want := make([]byte, min(int64(rec.ChunkSize), size-i*int64(rec.ChunkSize)))
			f.ReadAt(want, i*int64(rec.ChunkSize))
			c.Await("large", kase, func() {
				if rd, err := st.Cat.GetChunkReader(sha(h), i); err != nil {
					c.Fail("chunk-open", kase, "%s: chunk %d: %v", kase, i, err)
				} else {
					checkReader(c, fmt.Sprintf("%s, chunk %d", kase, i), rd, want, r)
					rd.Close()
				}
			})
		}
		c.Eval(kase)
		c.Obs("bytes of files larger than 4 GiB shared", int(size))
	})
}

func c26(c *Ctx) {
	c.Rule(`several downloads of random geometry in one catalogue; random sequences of valid saves (any order, repeated, with other data),
		saves of non-existing chunks (up to 65535) and of data with a wrong length; after every call the bytes of all files
		on disk and the availability of all chunks are compared with a model. Distinct by sequence of saves.`)
	Par(8, c.N(500, 12000), func(k int) {
		r := c.Rng("save", k)
		st := newStore(c)
		base := filepath.Dir(st.Dir)
		defer c.rm(base)
		type dl struct {
			h     Hash
			path  string
			size  int
			chunk int
			disk  []byte // expected bytes of the file; nil if there is none
			have  map[int]bool
		}
		var dls []*dl
		var log []string
		logf := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		c.Await("save", &log, func() {
			for i := 0; i < 1+r.IntN(3); i++ {
				size := 1 + r.IntN([]int{5, 50, 2000, 20000}[r.IntN(4)])
				chunk := []int{1, size, size + 100, 1 + size/2, 1 + r.IntN(size), max(1, size-1)}[r.IntN(6)]
				if size/chunk > 2000 {
					chunk = size/2000 + 1
				}
				h := sum(randBytes(r, 30))
				rec, err := st.Cat.RegisterDownload(uint64(size), uint32(chunkCount(int64(size), chunk)), uint32(chunk), sha(h), []string{"f", "g.txt"}[r.IntN(2)])
				if err != nil {
					c.Fail("register", &log, "%v", err)
					return
				}
				dls = append(dls, &dl{h, rec.FilePath, size, chunk, nil, map[int]bool{}})
				logf("download %d: %d bytes in chunks of %d", i, size, chunk)
			}
			other := filepath.Join(st.Down, "bystander")
			write(other, []byte("do not touch"))
			verify := func(what string, all bool) bool {
				for i, d := range dls {
					disk, err := os.ReadFile(d.path)
					if os.IsNotExist(err) {
						disk = nil
					}
					if !bytes.Equal(disk, d.disk) {
						c.Fail("save-bytes", append([]string{}, log...), "after %s, download %d (%d bytes, chunks of %d): %s", what, i, d.size, d.chunk, firstDiff(disk, d.disk))
						return false
					}
					n := chunkCount(int64(d.size), d.chunk)
					ir, err := st.Cat.Contains(sha(d.h))
					if err != nil {
						c.Fail("save-listing", append([]string{}, log...), "after %s: %v", what, err)
						return false
					}
					want := View{d.path, int64(d.size), d.chunk, n, len(d.have), memberString(func(i int) bool { return d.have[i] }, n)}
					if v := viewOf(ir); v != want {
						c.Fail("save-listing", append([]string{}, log...), "after %s: listed as %+v, want %+v", what, v, want)
						return false
					}
					if st.Cat.FileComplete(sha(d.h)) != (n == len(d.have)) {
						c.Fail("save-listing", append([]string{}, log...), "after %s: complete is wrong", what)
					}
				}
				if all {
					if b, _ := os.ReadFile(other); string(b) != "do not touch" {
						c.Fail("save-bytes", log, "another file in the directory was changed")
						return false
					}
					if ents, _ := os.ReadDir(st.Down); len(ents) > len(dls)+1 {
						c.Fail("save-bytes", log, "there are %d files in the downloads directory", len(ents))
						return false
					}
				}
				c.Obs("states compared", 1)
				return true
			}
			steps := 10 + r.IntN(40)
			for s := 0; s < steps; s++ {
				d := dls[r.IntN(len(dls))]
				n := chunkCount(int64(d.size), d.chunk)
				idx := r.IntN(n)
				switch r.IntN(8) {
				case 0:
					idx = n - 1
				case 1:
					idx = []int{n, n + 1, 65535, 65534, r.IntN(65536), 32768}[r.IntN(6)]
				}
				idx = min(idx, 65535)
				full := 0
				if idx < n {
					full = min(d.chunk, d.size-idx*d.chunk)
				}
				l := full
				if r.IntN(5) == 0 {
					l = []int{0, full - 1, full + 1, d.chunk, d.size, 2 * d.chunk, d.chunk + 1}[r.IntN(7)]
				}
				l = max(l, 0)
				data := randBytes(r, l)
				given := bytes.Clone(data)
				ok := idx < n && l == full
				what := fmt.Sprintf("saving %d bytes as chunk %d of %d", l, idx, n)
				logf("%s (chunk has %d)", what, full)
				err := st.Cat.SaveChunk(sha(d.h), uint16(idx), data)
				if (err == nil) != ok {
					c.Fail("save-result", append([]string{}, log...), "%s gives %v", what, err)
					return
				}
				if !bytes.Equal(data, given) {
					c.Fail("save-result", append([]string{}, log...), "%s modified the data", what)
				}
				if ok {
					end := idx*d.chunk + l
					if len(d.disk) < end {
						d.disk = append(d.disk, make([]byte, end-len(d.disk))...)
					}
					copy(d.disk[idx*d.chunk:], data)
					d.have[idx] = true
					c.Obs("chunks saved", 1)
				} else {
					c.Obs("saves refused", 1)
				}
				if !verify(what, s%10 == 0) {
					return
				}
				if r.IntN(15) == 0 {
					logf("re-open")
					st2, err := openStore(st.Dir, st.Down)
					if err != nil {
						c.Fail("save-listing", log, "re-opening: %v", err)
						return
					}
					st = st2
					if !verify("re-opening", true) {
						return
					}
				}
			}
			// unknown file
			if err := st.Cat.SaveChunk(sha(sum(randBytes(r, 9))), 0, []byte{1}); err == nil {
				c.Fail("save-result", log, "saving a chunk of an unknown file succeeds")
			}
			verify("everything", true)
		})
		c.Eval(strings.Join(log, "\n"))
		if k < 2 {
			c.Sample("saves", log[:min(len(log), 10)])
		}
	})
	// large geometries: a chunk far into a sparse file
	Par(4, c.N(12, 100), func(k int) {
		r := c.Rng("far", k)
		st := newStore(c)
		defer c.rm(filepath.Dir(st.Dir))
		chunk := []int{1 << 20, 4 << 20, 70000}[k%3]
		n := []int{65536, 40000, 1030, 33000}[k%4]
		size := int64(chunk)*int64(n-1) + int64(1+r.IntN(chunk))
		h := sum(randBytes(r, 20))
		kase := fmt.Sprintf("%d chunks of %d, %d bytes", n, chunk, size)
		c.Await("save", kase, func() {
			rec, err := st.Cat.RegisterDownload(uint64(size), uint32(n), uint32(chunk), sha(h), "big")
			if err != nil {
				c.Fail("register", kase, "%v", err)
				return
			}
			idxs := []int{n - 1, n / 2, 0, 1023, n - 2}
			bufs := map[int][]byte{}
			for _, i := range idxs {
				l := chunk
				if i == n-1 {
					l = int(size - int64(i)*int64(chunk))
				}
				data := randBytes(r, l)
				if err := st.Cat.SaveChunk(sha(h), uint16(i), data); err != nil {
					c.Fail("save-result", kase, "%s: chunk %d: %v", kase, i, err)
					return
				}
				bufs[i] = data
			}
			f, err := os.Open(rec.FilePath)
			if err != nil {
				c.Fail("save-bytes", kase, "%v", err)
				return
			}
			defer f.Close()
			for i, want := range bufs {
				got := make([]byte, len(want))
				f.ReadAt(got, int64(i)*int64(chunk))
				if !bytes.Equal(got, want) {
					c.Fail("save-bytes", kase, "%s: chunk %d: %s", kase, i, firstDiff(got, want))
				}
			}
			if info, _ := f.Stat(); info.Size() != size {
				c.Fail("save-bytes", kase, "%s: the file has %d bytes", kase, info.Size())
			}
			var st syscall.Stat_t
			syscall.Fstat(int(f.Fd()), &st)
			if st.Blocks*512 > int64(len(idxs)+3)*int64(chunk)+1<<20 {
				c.Fail("save-bytes", kase, "%s: %d bytes were written for %d chunks", kase, st.Blocks*512, len(idxs))
			}
			c.Obs("far chunks saved", len(idxs))
		})
		c.Eval(kase)
	})
	_ = catalogue.IndexRecordExport{}
}
