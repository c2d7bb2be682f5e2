package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

func init() { register("C06", "exploration", c06) }

// placeLab is a catalogue whose surroundings are watched.
type placeLab struct {
	c     *Ctx
	r     *rand.Rand
	base  string
	st    *Store
	kase  map[string]any
	steps []string
	owned map[string]string // paths of downloads, by hash: these may be written
}

func newPlaceLab(c *Ctx, r *rand.Rand) *placeLab {
	base := c.Dir("place")
	down := filepath.Join(base, "x", "y", "down")
	l := &placeLab{c: c, r: r, base: base, kase: map[string]any{}, owned: map[string]string{}}
	write(filepath.Join(base, "user", "shared.bin"), randBytes(r, 900))
	write(filepath.Join(base, "up.bin"), randBytes(r, 100))
	write(filepath.Join(base, "x", "up.bin"), randBytes(r, 100))
	write(filepath.Join(base, "x", "y", "up.bin"), randBytes(r, 100))
	switch r.IntN(4) {
	case 0: // not there yet
	case 1:
		must(os.MkdirAll(filepath.Join(base, "elsewhere"), 0755))
		must(os.Symlink(filepath.Join(base, "elsewhere"), down))
	default:
		must(os.MkdirAll(down, 0755))
	}
	if _, err := os.Stat(down); err == nil {
		must(os.WriteFile(filepath.Join(down, "taken.bin"), randBytes(r, 3000), 0644))
		must(os.WriteFile(filepath.Join(down, "empty.bin"), nil, 0644))
		must(os.Symlink(filepath.Join(base, "user", "shared.bin"), filepath.Join(down, "link.bin")))
		must(os.Symlink(filepath.Join(base, "user", "not-there.bin"), filepath.Join(down, "dangling.bin")))
		must(os.Symlink("loop.bin", filepath.Join(down, "loop.bin")))
		must(os.Mkdir(filepath.Join(down, "dir.bin"), 0755))
		must(os.Mkdir(filepath.Join(down, "sub"), 0755))
		must(syscall.Mkfifo(filepath.Join(down, "fifo.bin"), 0644))
		must(os.Link(filepath.Join(base, "up.bin"), filepath.Join(down, "hard.bin")))
	}
	st, err := openStore(filepath.Join(base, "cat"), down)
	must(err)
	l.st = st
	return l
}

func (l *placeLab) name() string {
	r := l.r
	fixed := []string{"taken.bin", "empty.bin", "link.bin", "dangling.bin", "loop.bin", "dir.bin", "sub", "fifo.bin", "hard.bin", "a.bin", "a (1).bin", "a (2).bin", "a", "a (1)", ".bin", "b.tar.gz", "b.tar (1).gz",
		"taken (1).bin", strings.Repeat("m", 250) + ".bin", strings.Repeat("m", 251) + ".bin", "A.BIN"}
	h := hostileNames(l.base)
	switch r.IntN(4) {
	case 0:
		return h[r.IntN(len(h))]
	case 1: // mutated
		b := []byte(fixed[r.IntN(len(fixed))])
		for n := r.IntN(3); n >= 0; n-- {
			piece := []string{"/", "..", "../", ".", "\x00", " ", "\\", "\xff", "//"}[r.IntN(9)]
			i := r.IntN(len(b) + 1)
			b = append(b[:i:i], append([]byte(piece), b[i:]...)...)
		}
		return string(b)
	default:
		return fixed[r.IntN(len(fixed))]
	}
}

// watched is the part of the lab that nothing may change: all but the catalogue's directory and the
// files of the downloads.
func (l *placeLab) watched() Tree {
	t := tree(l.base, treeContent|treeTimes)
	owned := map[string]bool{}
	for _, p := range l.owned {
		// down may be a link
		if real, err := filepath.EvalSymlinks(filepath.Dir(p)); err == nil {
			p = filepath.Join(real, filepath.Base(p))
		}
		rel, _ := filepath.Rel(l.base, p)
		owned[rel] = true
	}
	for k := range t {
		if k == "cat" || strings.HasPrefix(k, "cat/") || owned[k] || k == "x/y/down" && t[k][0] == 'd' {
			delete(t, k)
		}
	}
	return t
}

func (l *placeLab) fail(sig, format string, args ...any) {
	l.kase["steps"] = append([]string{}, l.steps...)
	l.c.Fail(sig, l.kase, format, args...)
}

// checkEntries checks that all entries have paths of their own.
func (l *placeLab) checkEntries() bool {
	list, err := listing(l.st.Cat)
	if err != nil {
		l.fail("listing", "%v", err)
		return false
	}
	by := map[string]string{}
	for _, h := range sortedKeys(list) {
		p := list[h].Path
		if other, twice := by[p]; twice {
			l.fail("shared-path", "%s and %s both go to %q", other, h, p)
			return false
		}
		by[p] = h
	}
	return true
}

func (l *placeLab) unchanged(before Tree, after string) bool {
	if diff := l.watched().diff(before); len(diff) > 0 {
		l.fail("outside", "%s changed something else: %v", after, diff)
		return false
	}
	return true
}

func c06(c *Ctx) {
	c.Rule(`Histories of registrations (names from a list of hostile and colliding ones, and mutations of them), saved chunks,
		unshares, shares and restarts around a downloads directory that is missing, a link, or holds files, links, dangling
		links, a FIFO and directories; after each step the whole surrounding tree is compared with the step before, and each
		new path with what was there. Up to thousands of downloads of one name. And whole downloads from peers that supply such names. Distinct by history.`)
	n := c.N(350, 12000)
	Par(8, n, func(k int) {
		if c.Failed() > 10 {
			return
		}
		r := c.Rng("history", k)
		l := newPlaceLab(c, r)
		defer c.rm(l.base)
		c06History(l)
		c.Eval(strings.Join(l.steps, ";"))
		if k%100 == 0 {
			c.Sample("history", l.steps)
		}
	})
	Par(4, c.N(4, 16), func(k int) {
		if c.Failed() <= 10 {
			c06Many(c, k)
		}
	})
	var names []string
	h := hostileNames("BASE")
	fixed := []string{"taken.bin", "link.bin", "dangling.bin", "dir.bin", "fifo.bin", "hard.bin", "loop.bin", "plain.bin"}
	for rep := 0; rep < c.N(2, 12); rep++ {
		names = append(append(names, h...), fixed...)
	}
	Par(100, len(names), func(k int) {
		if c.Failed() > 10 {
			return
		}
		c06Whole(c, k, names[k])
		c.Eval("whole " + names[k] + fmt.Sprint(k%2))
	})
}

func c06History(l *placeLab) {
	c, r := l.c, l.r
	content := map[string][]byte{}
	chunkSize := map[string]int{}
	var hashes []string
	shared := false
	blind := r.IntN(2) == 0 // nothing is listed until the end
	names := []string{l.name(), l.name()}
	list := func() (Listing, error) {
		if blind {
			return Listing{}, nil
		}
		return listing(l.st.Cat)
	}
	defer func() {
		if c.Failed() == 0 {
			l.checkEntries()
		}
	}()
	for i := 0; i < 14; i++ {
		before := l.watched()
		switch op := r.IntN(10); {
		case op < 5: // register
			name := l.name()
			if r.IntN(2) == 0 { // several of one name
				name = names[r.IntN(2)]
			}
			data := randBytes(r, 1+r.IntN(900))
			if r.IntN(12) == 0 {
				data = nil
			}
			chunk := 1 + r.IntN(400)
			if r.IntN(10) == 0 && len(hashes) > 0 { // known content
				data = content[hashes[r.IntN(len(hashes))]]
			}
			step := fmt.Sprintf("register %q (%d bytes)", name, len(data))
			l.steps = append(l.steps, step)
			lb, err := list()
			if err != nil {
				l.fail("listing", "%v", err)
				return
			}
			hash := sum(data)
			rec, err := l.st.Cat.RegisterDownload(uint64(len(data)), uint32(chunkCount(int64(len(data)), chunk)), uint32(chunk), sha(hash), name)
			la, lerr := list()
			if lerr != nil {
				l.fail("listing", "%v", lerr)
				return
			}
			if err != nil {
				l.steps[len(l.steps)-1] += " -> " + err.Error()
				if d := la.diff(lb); d != "" {
					l.fail("entry-after-error", "%s failed with %q, but: %s", step, err, d)
					return
				}
				c.Obs("registrations refused", 1)
				if !l.unchanged(before, step) {
					return
				}
				continue
			}
			c.Obs("registrations accepted", 1)
			p := rec.FilePath
			l.steps[len(l.steps)-1] += fmt.Sprintf(" -> %q", filepath.Base(p))
			if v, ok := la[hash.String()]; !blind && (!ok || v.Path != p) {
				l.fail("listing", "%s returned path %q but is listed as %+v", step, p, v)
				return
			}
			if filepath.Dir(p) != l.st.Down || filepath.Clean(p) != p {
				l.fail("place", "%s goes to %q, which is not directly inside %q", step, p, l.st.Down)
				return
			}
			// before holds everything that was there
			real := l.st.Down
			if e, err := filepath.EvalSymlinks(l.st.Down); err == nil {
				real = e
			}
			rel, _ := filepath.Rel(l.base, filepath.Join(real, filepath.Base(p)))
			if was, ok := before[rel]; ok {
				l.fail("existing", "%s goes to %q, where there was already: %s", step, p, was)
				return
			}
			for h, q := range l.owned {
				if q == p && h != hash.String() {
					if _, err := os.Lstat(p); err == nil {
						l.fail("existing", "%s goes to %q, where there is already the file of an earlier download", step, p)
						return
					}
				}
			}
			for h, q := range l.owned {
				if q == p {
					delete(l.owned, h) // unshared before anything was written
				}
			}
			if !l.unchanged(before, step) {
				return
			}
			l.owned[hash.String()] = p
			content[hash.String()], chunkSize[hash.String()] = data, chunk
			hashes = append(hashes, hash.String())
		case op < 8 && len(hashes) > 0: // save
			h := hashes[r.IntN(len(hashes))]
			data, chunk := content[h], chunkSize[h]
			n := chunkCount(int64(len(data)), chunk)
			if n == 0 {
				continue
			}
			step := fmt.Sprintf("save chunks of %s", h[:6])
			l.steps = append(l.steps, step)
			var others []Tree
			// the files of the other downloads count as others here
			mine := l.owned[h]
			save := l.owned
			l.owned = map[string]string{h: mine}
			if _, err := l.st.Cat.Contains(sha(sum(data))); err != nil {
				l.owned = map[string]string{} // unshared: nothing may be written any more
			}
			others = append(others, l.watched())
			all := r.IntN(2) == 0
			for i := 0; i < n; i++ {
				if all || r.IntN(3) == 0 {
					l.st.Cat.SaveChunk(sha(sum(data)), uint16(i), chunkOf(data, chunk, i))
				}
			}
			ok := l.unchanged(others[0], step)
			l.owned = save
			if !ok {
				return
			}
			if _, err := l.st.Cat.Contains(sha(sum(data))); err == nil && all {
				got, err := readReg(mine)
				if err != nil || string(got) != string(data) {
					l.fail("content", "%s: %q does not hold the content: %v", step, mine, err)
					return
				}
				c.Obs("downloads written", 1)
			}
		case op == 8 && len(hashes) > 0:
			h := hashes[r.IntN(len(hashes))]
			l.steps = append(l.steps, "unshare "+h[:6])
			all := l.owned
			l.owned = map[string]string{}
			b := l.watched()
			l.st.Cat.UnshareFile(sha(sum(content[h])))
			ok := l.unchanged(b, "unshare")
			l.owned = all
			if !ok {
				return
			}
		default:
			l.steps = append(l.steps, "restart")
			all := l.owned
			l.owned = map[string]string{}
			b := l.watched()
			st, err := openStore(l.st.Dir, l.st.Down)
			if err != nil {
				l.fail("restart", "%v", err)
				return
			}
			l.st = st
			if !shared && r.IntN(2) == 0 {
				shared = true
				l.steps = append(l.steps, "share")
				if _, err := l.st.Cat.ShareFile(filepath.Join(l.base, "user", "shared.bin")); err != nil {
					l.fail("share", "%v", err)
				}
			}
			ok := l.unchanged(b, "restart")
			l.owned = all
			if !ok {
				return
			}
		}
		if !blind && !l.checkEntries() {
			return
		}
	}
}

// c06Whole runs a whole download from a peer that supplies the name.
func c06Whole(c *Ctx, k int, name string) {
	r := c.Rng("whole", k)
	l := newPlaceLab(c, r)
	defer c.rm(l.base)
	name = strings.ReplaceAll(name, "BASE", l.base)
	l.kase["name"] = name
	data := randBytes(r, 2500)
	l.steps = append(l.steps, fmt.Sprintf("download %q", name))
	p := newPeer(ip127(k))
	defer p.close()
	p.serve(sum(data), data, 900, name)
	d := newDownOn(c, l.base, l.st)
	defer d.lan.close()
	defer d.stop()
	d.lan.set(p.sock.addr)
	before := l.watched()
	var err error
	if !c.Await("download", l.kase, func() { err = d.srv.StartDownload(sha(sum(data))) }) {
		return
	}
	if err != nil {
		c.Obs("downloads refused", 1)
		if list, lerr := listing(l.st.Cat); lerr != nil || len(list) != 0 {
			l.fail("entry-after-error", "the request failed with %q, but the catalogue has %v %v", err, list, lerr)
		}
		l.unchanged(before, "a refused download")
		return
	}
	rec, cerr := l.st.Cat.Contains(sha(sum(data)))
	if cerr != nil {
		l.fail("listing", "the download is not in the catalogue: %v", cerr)
		return
	}
	if filepath.Dir(rec.FilePath) != l.st.Down {
		l.fail("place", "it goes to %q", rec.FilePath)
	}
	var why string
	ok := c.WaitFor(80*1e9, func() (ok bool) { ok, why = d.complete(data); return })
	if ok {
		c.Obs("downloads completed", 1)
	} else {
		l.fail("incomplete", "a download to %q does not complete: %s", rec.FilePath, why)
	}
	l.owned["x"] = rec.FilePath
	l.unchanged(before, "the download")
}

// c06Many lets a great many downloads have one name.
func c06Many(c *Ctx, k int) {
	r := c.Rng("many", k)
	base := c.Dir("place")
	defer c.rm(base)
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	name := []string{"same.bin", "same", strings.Repeat("s", 247) + ".bin", ".hidden"}[k%4]
	n := c.N(1150, 10500)
	there := map[string]string{}
	kase := map[string]any{"name": name, "downloads": n}
	for i := 0; i < n; i++ {
		data := []byte(fmt.Sprintf("%08d", i))
		kase["at"] = i
		rec, err := st.Cat.RegisterDownload(8, 1, 8, sha(sum(data)), name)
		if err != nil {
			// names can get too long
			c.Obs("registrations refused", 1)
			if len(name) < 240 {
				c.Fail("refused", kase, "%v", err)
				return
			}
			continue
		}
		if was, used := there[rec.FilePath]; used {
			c.Fail("shared-path", kase, "downloads %s and %s both go to %q", was, data, rec.FilePath)
			return
		}
		if _, err := os.Lstat(rec.FilePath); err == nil {
			c.Fail("existing", kase, "download %d goes to %q, where there was already a file", i, rec.FilePath)
			return
		}
		there[rec.FilePath] = string(data)
		if err := st.Cat.SaveChunk(sha(sum(data)), 0, data); err != nil {
			c.Fail("content", kase, "%v", err)
			return
		}
		if r.IntN(3) == 0 { // its file stays
			st.Cat.UnshareFile(sha(sum(data)))
		}
		if i%50 == 0 {
			c.Beat()
		}
	}
	for p, want := range there {
		if got, err := readReg(p); err != nil || string(got) != want {
			c.Fail("content", kase, "%q holds %q, want %q (%v)", p, got, want, err)
			return
		}
	}
	c.ObsMax("most downloads of one name", len(there))
	c.Eval("many " + name)
}
