package main

import (
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flu-network/client/cli"
)

func init() {
	register("C25", "exploration", c25)
	helpers["catseed"] = helperCatSeed
}

type seedFile struct {
	Data  []byte
	Chunk int
	Name  string
	Have  []int
}

// helperCatSeed puts partial downloads into a catalogue. It prints their paths.
func helperCatSeed(args []string) {
	st, err := openStore(args[0], args[1])
	must(err)
	var files []seedFile
	must(json.NewDecoder(os.Stdin).Decode(&files))
	paths := []string{}
	for _, f := range files {
		if f.Have == nil {
			f.Have = []int{}
		}
		p, err := st.seed(f.Data, f.Chunk, f.Name, f.Have)
		must(err)
		paths = append(paths, p)
	}
	json.NewEncoder(os.Stdout).Encode(paths)
}

func (h *Real) seed(files []seedFile) []string {
	cmd := exec.Command("nsenter", "-t", fmt.Sprint(h.holder.Process.Pid), "-n", "-m", "/mnt/bin/mon", "catseed",
		h.inner+"/home/.flu-network/catalogue", h.inner+"/home/.flu-network/downloads")
	in, _ := json.Marshal(files)
	cmd.Stdin = strings.NewReader(string(in))
	out, err := cmd.Output()
	must(err)
	var paths []string
	must(json.Unmarshal(out, &paths))
	return paths
}

func c25(c *Ctx) {
	c.Rule(`Printing: generated results of every command, parsed and compared field by field. Real processes: random sequences of
		CLI calls (every command; valid, missing, surplus, odd and hostile arguments; relative and unusual paths; pipes,
		directories, links; remote hosts that are real, absent or lying; IPV6) and raw RPC calls against a real daemon with
		shared, empty and partial files; output and exit code are compared with a model, and after each call the daemon must live
		and list exactly the model. Distinct by printed result and by call.`)
	c25Print(c)
	labs := c.N(4, 40)
	Par(4, labs, func(k int) {
		if c.Failed() > 10 {
			return
		}
		l := &cliLab{lanLab: newLanLab(c, k, 2), r: c.Rng("lab", k), model: map[string]cliEntry{}, other: map[string]cliEntry{}}
		defer l.close()
		l.run()
		c.Sample("calls", l.log)
	})
}

// c25Print checks what is printed for any result.
func c25Print(c *Ctx) {
	n := c.N(4000, 200000)
	Par(8, n, func(k int) {
		r := c.Rng("print", k)
		items := make([]cli.ListItem, []int{0, 1, 2, 3, 3, r.IntN(300)}[r.IntN(6)])
		for i := range items {
			it := &items[i]
			it.FilePath = "/some/dir/" + strings.ReplaceAll(oddName(r, i), "\n", "")
			it.ChunkCount = []int{0, 1, 2, 3, 7, 99, 100, 101, 200, 999, 1000, 65535, 65536, r.IntN(65537)}[r.IntN(14)]
			it.ChunksDownloaded = []int{0, it.ChunkCount, max(0, it.ChunkCount-1), min(1, it.ChunkCount), r.IntN(it.ChunkCount + 1)}[r.IntN(5)]
			it.ChunkSizeInBytes = 1 + r.IntN(1<<32-1)
			it.SizeInBytes = int64(it.ChunkCount) * int64(it.ChunkSizeInBytes)
			copy(it.Sha1Hash[:], randBytes(r, 20))
		}
		var out string
		if !c.Guard("print-panic", items, func() { out = (&cli.ListResponse{Items: items}).Sprintf() }) {
			return
		}
		rest := out
		for i := range items {
			it := &items[i]
			m := itemRE.FindStringSubmatch(rest)
			integrity := int64(100)
			if it.ChunkCount > 0 {
				integrity = int64(it.ChunksDownloaded) * 100 / int64(it.ChunkCount)
			}
			want := []string{filepath.Base(it.FilePath), it.FilePath, fmt.Sprint(it.SizeInBytes), fmt.Sprintf("%x", it.Sha1Hash), fmt.Sprint(it.ChunkCount), fmt.Sprint(it.ChunksDownloaded), fmt.Sprint(it.ChunkSizeInBytes), fmt.Sprint(integrity)}
			if m == nil || fmt.Sprintf("%q", m[1:]) != fmt.Sprintf("%q", want) {
				c.Fail("print", items, "item %d is printed as %q, want %q", i, rest, want)
				return
			}
			if one := it.Sprintf(); one != m[0] {
				c.Fail("print", items, "alone, item %d is printed as %q, and in a list as %q", i, one, m[0])
				return
			}
			rest = rest[len(m[0]):]
		}
		if rest != "" {
			c.Fail("print", items, "%d items are followed by %q", len(items), rest)
			return
		}
		// discovered hosts
		chims := cli.ChimResponseList{Responses: make([]cli.ChimResponse, []int{0, 1, 2, 3, 3, r.IntN(600)}[r.IntN(6)])}
		want := ""
		for i := range chims.Responses {
			h := &chims.Responses[i]
			copy(h.HostIP[:], randBytes(r, 4))
			h.HostPort = uint16(r.Uint32())
			want += fmt.Sprintf("IP: %v:%d\n", net.IP(h.HostIP[:]), h.HostPort)
			h.Chunks = make([]uint16, r.IntN(7)) // a peer can send an odd number
			if r.IntN(8) == 0 {
				h.Chunks = make([]uint16, r.IntN(256))
			}
			for x := range h.Chunks {
				h.Chunks[x] = uint16(r.Uint32())
				if x%2 == 1 {
					want += fmt.Sprintf("  %d:%d\n", h.Chunks[x-1], h.Chunks[x])
				}
			}
		}
		if !c.Guard("print-panic", chims, func() { out = chims.Sprintf() }) {
			return
		}
		if out != want {
			c.Fail("print", chims, "hosts are printed as %q, want %q", out, want)
			return
		}
		clean := cli.CleanResponse{Items: make([]cli.CleanResponseItem, []int{0, 1, 2, 3, 3, r.IntN(600)}[r.IntN(6)])}
		want = ""
		for i := range clean.Items {
			clean.Items[i].ActionTaken = fmt.Sprintf("/path/%d %%d\n  - something %d\n", i, r.IntN(100))
			want += clean.Items[i].ActionTaken
		}
		if !c.Guard("print-panic", clean, func() { out = clean.Sprintf() }) {
			return
		}
		if out != want {
			c.Fail("print", clean, "cleaning is printed as %q, want %q", out, want)
			return
		}
		c.Guard("print-panic", nil, func() { _ = (&cli.GetResponse{}).Sprintf() })
		c.Obs("results printed", 1)
		key := ""
		if len(items) > 0 {
			key = fmt.Sprintf("print %d/%d %d", items[0].ChunksDownloaded, items[0].ChunkCount, len(items))
		}
		c.Eval(key)
	})
}

type cliEntry struct {
	path   string
	size   int64
	chunks int64
	have   int64
	chunk  int64
	data   []byte
}

func (e cliEntry) item(hash, path string) item {
	integrity := int64(100)
	if e.chunks > 0 {
		integrity = e.have * 100 / e.chunks
	}
	return item{Name: filepath.Base(path), Path: path, Size: e.size, Chunks: e.chunks, Have: e.have, ChunkSize: e.chunk, Integrity: integrity, Hash: hash}
}

type cliLab struct {
	*lanLab
	r     *rand.Rand
	model map[string]cliEntry // what host 0 lists
	other map[string]cliEntry // what host 1 lists
	fake  *Peer
	seq   int
}

// run executes random calls on host 0.
func (l *cliLab) run() {
	r, c := l.r, l.c
	a, b := l.hosts[0], l.hosts[1]
	// partial downloads that are already there
	for i, h := range l.hosts {
		var files []seedFile
		for k := 0; k < 4; k++ {
			chunks := []int{3, 200, 7, 1000}[k]
			f := seedFile{Data: randBytes(r, chunks*10-3), Chunk: 10, Name: fmt.Sprintf("partial %d.bin", k)}
			for x := 0; x < chunks; x++ {
				if (k%2 == 0 && x%3 == k%3) || (k%2 == 1 && x != 1) {
					f.Have = append(f.Have, x)
				}
			}
			files = append(files, f)
		}
		files = append(files, seedFile{Data: randBytes(r, 50), Chunk: 10, Name: "nothing yet"})
		paths := h.seed(files)
		for k, f := range files {
			e := cliEntry{paths[k], int64(len(f.Data)), int64(chunkCount(int64(len(f.Data)), f.Chunk)), int64(len(f.Have)), int64(f.Chunk), nil}
			if i == 0 {
				l.model[sum(f.Data).String()] = e
			} else {
				l.other[sum(f.Data).String()] = e
			}
		}
	}
	if !l.start(0) || !l.start(1) {
		return
	}
	l.fake = newPeerOn(onBridge(l.lab))
	defer l.fake.close()
	for k := 0; k < 5; k++ {
		data := randBytes(r, 100*k)
		if !l.share(1, fmt.Sprintf("b%d.bin", k), data) {
			return
		}
		l.other[sum(data).String()] = cliEntry{b.inner + fmt.Sprintf("/work/b%d.bin", k), int64(len(data)), int64(chunkCount(int64(len(data)), 1<<22)), int64(chunkCount(int64(len(data)), 1<<22)), 1 << 22, data}
	}
	calls := c.N(75, 300)
	ops := l.ops()
	order := r.Perm(len(ops))
	for i := 0; i < calls; i++ {
		op := ops[order[i%len(order)]]
		if i >= len(order) {
			op = ops[r.IntN(len(ops))]
		}
		before := len(l.log)
		if !op() || !l.same() {
			return
		}
		call := ""
		if len(l.log) > before {
			call = l.log[len(l.log)-1]
		}
		c.Eval(call)
		c.Obs("calls", 1)
	}
	// many at once
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := [][]string{{"list"}, {"list", b.ip}, {"clean"}, {"share", "nothing-there"}}[i%4]
			if out, code := a.cli(a.inner, args...); code != 0 {
				mu.Lock()
				l.fail("concurrent", "%q among other calls ended with %d: %q", args, code, out)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for h, e := range l.model { // clean has removed what has no file
		if _, err := os.Stat(a.path(e.path)); err != nil {
			delete(l.model, h)
		}
	}
	if !l.same() {
		return
	}
	l.step("restart")
	a.kill()
	if !l.start(0) || !l.same() {
		return
	}
	c.Obs("labs completed", 1)
}

// same checks that the daemon lives and lists the model.
func (l *cliLab) same() bool {
	a := l.hosts[0]
	if !a.check(l.kase, "after "+l.log[len(l.log)-1]) {
		l.kase["steps"] = append([]string{}, l.log...)
		return false
	}
	var res cli.ListResponse
	if err, ok := a.call("List", &cli.ListRequest{}, &res); !ok || err != nil {
		l.fail("list", "the daemon does not list: %v", err)
		return false
	}
	got := map[string]bool{}
	for _, it := range res.Items {
		h := Hash(it.Sha1Hash).String()
		e, ok := l.model[h]
		if !ok || got[h] || it.FilePath != e.path || it.SizeInBytes != e.size || int64(it.ChunkCount) != e.chunks || int64(it.ChunksDownloaded) != e.have || int64(it.ChunkSizeInBytes) != e.chunk {
			l.fail("list", "the daemon lists %+v, want %+v (known: %v)", it, e, ok)
			return false
		}
		got[h] = true
	}
	if len(got) != len(l.model) {
		l.fail("list", "the daemon lists %d files, want %d", len(got), len(l.model))
		return false
	}
	return true
}

// expect runs a command on host 0 whose output must contain something.
func (l *cliLab) expect(code int, contains string, args ...string) bool {
	out, got := l.cli(args...)
	if got != code || (contains != "" && !strings.Contains(out, contains)) || (contains == "" && code == 0 && out != "") {
		l.fail("output", "%q ended with %d and printed %q, want %d and %q", args, got, out, code, contains)
		return false
	}
	if strings.Contains(out, "panic: ") || strings.Contains(out, "goroutine ") {
		l.fail("cli-crash", "%q crashed: %q", args, out)
		return false
	}
	return true
}

// fails runs a command that must be refused with some message.
func (l *cliLab) fails(args ...string) bool {
	out, code := l.cli(args...)
	if code < 0 || strings.TrimSpace(out) == "" {
		l.fail("output", "%q ended with %d and printed %q, want an error", args, code, out)
		return false
	}
	if strings.Contains(out, "panic: ") || strings.Contains(out, "goroutine ") || strings.Contains(out, "EOF") || strings.Contains(out, "connection is shut down") {
		l.fail("cli-crash", "%q crashed: %q", args, out)
		return false
	}
	if _, err := parseItems(out); err == nil {
		l.fail("output", "%q printed %q, want an error", args, out)
		return false
	}
	return true
}

func (l *cliLab) cli(args ...string) (string, int) {
	l.step("%q", args)
	return l.hosts[0].cli(l.hosts[0].inner+"/work", args...)
}

// items runs a command that must print these files.
func (l *cliLab) items(want []item, args ...string) bool {
	out, code := l.cli(args...)
	for try := 0; try < 4 && strings.Contains(out, "timeout"); try++ {
		out, code = l.cli(args...)
	}
	got, err := parseItems(out)
	byHash := map[string]item{}
	for _, w := range want {
		byHash[w.Hash] = w
	}
	ok := code == 0 && err == nil && len(got) == len(want)
	for _, g := range got {
		ok = ok && g == byHash[g.Hash]
	}
	if !ok {
		l.fail("output", "%q ended with %d (%v) and printed %q, want %+v", args, code, err, out, want)
	}
	return ok
}

func (l *cliLab) newFile(name string) (path string, data []byte) {
	l.seq++
	data = randBytes(l.r, 40+l.r.IntN(3000))
	path = filepath.Join(l.hosts[0].dir, "work", name)
	write(path, data)
	return
}

func (l *cliLab) added(path string, data []byte) item {
	n := int64(chunkCount(int64(len(data)), 1<<22))
	e := cliEntry{path, int64(len(data)), n, n, 1 << 22, data}
	l.model[sum(data).String()] = e
	return e.item(sum(data).String(), path)
}

func (l *cliLab) ops() []func() bool {
	r := l.r
	a, b := l.hosts[0], l.hosts[1]
	work := a.inner + "/work"
	somewhere := func(m map[string]cliEntry) (string, cliEntry) {
		ks := sortedKeys(m)
		k := ks[r.IntN(len(ks))]
		return k, m[k]
	}
	shareAs := func(f func(name string) (arg, path string)) func() bool {
		return func() bool {
			name := fmt.Sprintf("f%d %s", l.seq, []string{"a.txt", "ünï✓", "x y z", "-", "%s%n", "\t", "b\xffd \xc3(", strings.Repeat("l", 200)}[r.IntN(8)])
			_, data := l.newFile(name)
			arg, path := f(name)
			want := l.added(path, data)
			return l.items([]item{want}, "share", arg)
		}
	}
	ops := []func() bool{
		shareAs(func(n string) (string, string) { return n, work + "/" + n }),
		shareAs(func(n string) (string, string) { return "./" + n, work + "/" + n }),
		shareAs(func(n string) (string, string) { return "../work/" + n, work + "/" + n }),
		shareAs(func(n string) (string, string) { return work + "/" + n, work + "/" + n }),
		shareAs(func(n string) (string, string) { return work + "//./" + n, work + "/" + n }),
		shareAs(func(n string) (string, string) { // a link keeps its own name
			os.Symlink(n, filepath.Join(a.dir, "work", n+".link"))
			return n + ".link", work + "/" + n + ".link"
		}),
		func() bool { // a copy of something known
			for k := 0; k < 20; k++ {
				_, e := somewhere(l.model)
				if e.data == nil {
					continue
				}
				write(filepath.Join(a.dir, "work", "copy"), e.data)
				return l.expect(0, e.path, "share", "copy") && l.expect(0, e.path, "share", e.path)
			}
			return true
		},
		func() bool {
			write(filepath.Join(a.dir, "work", "empty"), nil)
			if _, known := l.model[sum(nil).String()]; known {
				return l.expect(0, l.model[sum(nil).String()].path, "share", "empty")
			}
			return l.items([]item{l.added(work+"/empty", nil)}, "share", "empty")
		},
		func() bool { return l.fails("share", "not-there") },
		func() bool { return l.fails("share", "") },
		func() bool { return l.fails("share", ".") },
		func() bool { return l.fails("share", "/") },
		func() bool { return l.fails("share", "/dev/zero") },
		func() bool { return l.fails("share", "/dev/null") },
		func() bool { return l.fails("share", strings.Repeat("x", 300)) },
		func() bool { return l.fails("share", "new\nline\xff") },
		func() bool {
			syscall.Mkfifo(filepath.Join(a.dir, "work", "pipe"), 0666)
			return l.fails("share", "pipe")
		},
		func() bool {
			os.Symlink("nowhere", filepath.Join(a.dir, "work", "dangling"))
			return l.fails("share", "dangling")
		},
		func() bool { return l.fails("share") },
		func() bool { return l.fails("share", "a", "b") },
		func() bool { return l.fails("get") },
		func() bool { return l.fails("get", "abc") },
		func() bool { return l.fails("get", strings.Repeat("g", 40)) },
		func() bool { return l.fails("get", strings.Repeat("0", 41)) },
		func() bool { return l.fails("get", strings.Repeat("0", 40)) },
		func() bool { return l.fails("get", strings.Repeat("f", 40)) },
		func() bool { return l.fails("get", strings.Repeat("0", 40), "more") },
		func() bool { return l.fails("clean", "more") },
		func() bool { return l.fails("nonsense") },
		func() bool { return l.fails("") },
		func() bool { return l.fails() },
		func() bool { return l.fails("list", "nonsense") },
		func() bool { return l.fails("list", "") },
		func() bool { return l.fails("list", "::1") },
		func() bool { return l.fails("list", "fe80::1", strings.Repeat("0", 40)) },
		func() bool { return l.fails("list", "127.0.0.1.5") },
		func() bool { return l.fails("list", b.ip+"9") }, // nobody there
		func() bool { return l.fails("list", "0.0.0.0", "zz") },
		func() bool { return l.fails("list", "240.1.2.3") },
		func() bool { return l.fails("list", "224.0.0.1") },
		func() bool { return l.fails("list", "255.255.255.255") },
		func() bool { return l.fails("list", b.ip, "12") },
		func() bool { return l.fails("chims", "12") },
		func() bool { // what it holds itself
			var want []item
			for h, e := range l.model {
				want = append(want, e.item(h, e.path))
			}
			return l.items(want, "list")
		},
		func() bool { // and what it tells others
			var want []item
			for h, e := range l.model {
				want = append(want, e.item(h, filepath.Base(e.path)))
			}
			return l.items(want, "list", a.ip) && l.items(want, "list", "127.0.0.1")
		},
		func() bool {
			var want []item
			for h, e := range l.other {
				want = append(want, e.item(h, filepath.Base(e.path)))
			}
			return l.items(want, "list", b.ip) && l.items(want, "list", "::ffff:"+b.ip)
		},
		func() bool {
			h, e := somewhere(l.other)
			return l.items([]item{e.item(h, filepath.Base(e.path))}, "list", b.ip, strings.ToUpper(h))
		},
		func() bool { return l.expect(0, "", "list", b.ip, strings.Repeat("12", 20)) },
		l.lyingHost,
		l.chims,
		l.clean,
		func() bool { // fetch
			for k := 0; k < 20; k++ {
				h, e := somewhere(l.other)
				_, known := l.model[h]
				if known || e.data == nil || len(e.data) == 0 {
					continue
				}
				if !l.get(0, e.data, 0) {
					return false
				}
				var res cli.ListResponse
				a.call("List", &cli.ListRequest{}, &res)
				for _, it := range res.Items {
					if Hash(it.Sha1Hash).String() == h {
						e.path = it.FilePath
					}
				}
				l.model[h] = e
				return l.expect(0, "initiated", "get", h)
			}
			return true
		},
	}
	ops = append(ops, l.rawCalls()...)
	return ops
}

// lyingHost lists a host that says strange things.
func (l *cliLab) lyingHost() bool {
	r := l.r
	f := wFile{Size: r.Uint64() >> 1, Count: r.Uint32(), ChunkSize: r.Uint32(), Name: "strange name.bin"}
	f.Downloaded = []uint32{0, f.Count, f.Count / 2}[r.IntN(3)]
	if r.IntN(3) == 0 {
		f.Count, f.Downloaded = 0, 0
	}
	copy(f.Hash[:], randBytes(r, 20))
	g := f
	g.Hash[0] ^= 1
	g.Name = ""
	l.fake.onList = func(p *Peer, from *net.UDPAddr, m wMsg) { p.sock.send(from, encListResp(m.ReqID, []wFile{f, g})) }
	out, code := l.cli("list", bridgeIP(l.lab))
	got, err := parseItems(out)
	if code != 0 || err != nil || len(got) != 2 {
		l.fail("output", "listing %+v ended with %d and printed %q", f, code, out)
		return false
	}
	for _, w := range []wFile{f, g} {
		e := cliEntry{size: int64(w.Size), chunks: int64(w.Count), have: int64(w.Downloaded), chunk: int64(w.ChunkSize)}
		want := e.item(w.Hash.String(), w.Name)
		if w.Name == "" {
			want.Name = ""
		}
		if got[0] != want && got[1] != want {
			l.fail("output", "listing %+v printed %q, want %+v", w, out, want)
			return false
		}
	}
	// garbage
	for _, b := range [][]byte{{}, {3}, {3, 0, 0, 0, 9}, randBytes(r, 60), encAck(1), encDiscResp(1, [4]byte{}, 1, nil), {tData, 0, 0, 0, 1}} {
		l.fake.onList = func(p *Peer, from *net.UDPAddr, m wMsg) { p.sock.send(from, b) }
		if !l.fails("list", bridgeIP(l.lab)) {
			return false
		}
	}
	l.fake.onList = nil
	return true
}

// chims discovers hosts, with a strange one among them.
func (l *cliLab) chims() bool {
	r := l.r
	hash := Hash(blankHash)
	args := []string{"chims"}
	lineB, lineA := "", ""
	if r.IntN(2) == 0 {
		for _, h := range sortedKeys(l.other) {
			if e := l.other[h]; e.data != nil && e.chunks > 0 {
				hash = hashFromHex(h)
				lineA, lineB = "", "  0:0\n"
				if _, has := l.model[h]; has {
					lineA = "  0:0\n"
				}
			}
		}
		args = append(args, hash.String())
	}
	odd := r.IntN(2) == 0
	l.fake.onDisc = func(p *Peer, from *net.UDPAddr, m wMsg) {
		to := &net.UDPAddr{IP: from.IP, Port: daemonPort}
		if odd {
			p.sock.send(to, encDiscResp(m.ReqID, [4]byte{1, 2, 3, 4}, 5, []uint16{7, 8, 9}))
		}
	}
	defer func() { l.fake.onDisc = nil }()
	want := []string{fmt.Sprintf("IP: %s:%d\n%s", l.hosts[0].ip, daemonPort, lineA), fmt.Sprintf("IP: %s:%d\n%s", l.hosts[1].ip, daemonPort, lineB)}
	if odd {
		want = append(want, "IP: 1.2.3.4:5\n  7:8\n")
	}
	var out string
	var code int
	for try := 0; try < 3; try++ {
		out, code = l.cli(args...)
		n, ok := 0, code == 0
		for _, w := range want {
			ok = ok && strings.Contains(out+"IP", w+"IP")
			n += len(w)
		}
		if ok && n == len(out) {
			return true
		}
	}
	l.fail("output", "%q ended with %d and printed %q, want %q in any order", args, code, out, want)
	return false
}

// clean checks what is printed about each file.
func (l *cliLab) clean() bool {
	a := l.hosts[0]
	var changed string
	for _, h := range sortedKeys(l.model) {
		e := l.model[h]
		if e.data != nil && len(e.data) > 0 && strings.HasPrefix(e.path, a.inner+"/work/f") && !strings.HasSuffix(e.path, ".link") {
			if l.r.IntN(2) == 0 {
				os.Remove(a.path(e.path))
			} else {
				os.WriteFile(a.path(e.path), append([]byte("changed"), e.data...), 0644)
				changed = h
			}
			break
		}
	}
	out, code := l.cli("clean")
	if code != 0 {
		l.fail("output", "clean ended with %d: %q", code, out)
		return false
	}
	n := 0
	for _, h := range sortedKeys(l.model) {
		e := l.model[h]
		i := strings.Index(out, e.path+"\n  - ")
		if i < 0 {
			l.fail("output", "clean printed %q, and nothing about %q", out, e.path)
			return false
		}
		line := out[i+len(e.path)+5:]
		line = line[:strings.IndexByte(line, '\n')]
		n++
		_, err := os.Stat(a.path(e.path))
		want := "Hashes match"
		switch {
		case err != nil:
			want = "missing"
			delete(l.model, h)
		case e.have < e.chunks:
			want = "in progress"
		case h == changed:
			want = "changed"
			if !strings.Contains(out, h) {
				l.fail("output", "clean does not print the indexed hash: %q", out)
				return false
			}
			delete(l.model, h)
		default:
			if file, _ := readReg(a.path(e.path)); sum(file).String() != h { // a link to what was changed
				want = "changed"
				delete(l.model, h)
			}
		}
		if !strings.Contains(line, want) {
			l.fail("output", "clean says %q about %q, want %q", line, e.path, want)
			return false
		}
	}
	if got := strings.Count(out, a.inner) - strings.Count(out, "stat "+a.inner) - strings.Count(out, "open "+a.inner); got < n {
		l.fail("output", "clean printed %d paths for %d files: %q", got, n, out)
		return false
	}
	return true
}

// rawCalls are RPCs that the CLI itself does not make.
func (l *cliLab) rawCalls() []func() bool {
	a := l.hosts[0]
	raw := func(name, method string, req any, wantErr bool) func() bool {
		return func() bool {
			l.step("RPC %s", name)
			var res any
			switch method {
			case "List":
				res = &cli.ListResponse{}
			case "Share":
				res = &cli.ListItem{}
			case "Get":
				res = &cli.GetResponse{}
			case "Chims":
				res = &cli.ChimResponseList{}
			default:
				res = &cli.CleanResponse{}
			}
			err, answered := a.call(method, req, res)
			if !answered {
				if a.check(l.kase, "at RPC "+name) {
					l.fail("rpc", "%s got no answer: %v", name, err)
				}
				return false
			}
			if wantErr && err == nil {
				l.fail("rpc", "%s succeeded", name)
				return false
			}
			return true
		}
	}
	type odd struct{ X map[string]int }
	gob.Register(odd{})
	return []func() bool{
		raw("get without a hash", "Get", &cli.GetRequest{}, true),
		raw("chims without a hash", "Chims", &cli.ChimRequest{}, true),
		raw("list of a host without a hash", "List", &cli.ListRequest{IP: net.ParseIP(l.hosts[1].ip)}, true),
		raw("list of an odd address", "List", &cli.ListRequest{IP: net.IP{1, 2, 3}}, true),
		raw("list of a long address", "List", &cli.ListRequest{IP: make(net.IP, 1000), Sha1Hash: sha(sum(nil))}, true),
		raw("share of nothing", "Share", &cli.ShareRequest{}, true),
		raw("share of a relative path", "Share", &cli.ShareRequest{Filepath: "not-there"}, true),
		raw("share of a path with NUL", "Share", &cli.ShareRequest{Filepath: "/a\x00b"}, true),
		raw("share of a long path", "Share", &cli.ShareRequest{Filepath: strings.Repeat("/x", 1<<19)}, true),
		raw("an unknown method", "Nonsense", &cli.CleanRequest{}, true),
		raw("a request of the wrong type", "Get", &odd{map[string]int{"a": 1}}, true),
		func() bool {
			l.step("garbage on the socket")
			for _, b := range [][]byte{{}, {0}, {255, 255, 255, 255}, randBytes(l.r, 5000), []byte("GET / HTTP/1.1\r\n\r\n")} {
				if conn, err := net.Dial("unix", a.sock()); err == nil {
					conn.SetDeadline(time.Now().Add(5 * time.Second))
					conn.Write(b)
					conn.Close()
				}
			}
			return true
		},
	}
}
