package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flu-network/client/cli"
)

func init() { register("C21", "exploration", c21) }

// level is what a process holds on to.
type level struct {
	fds        []string
	goroutines []string
}

func ownFDs() []string {
	des, _ := os.ReadDir("/proc/self/fd")
	var l []string
	for _, de := range des {
		if to, err := os.Readlink("/proc/self/fd/" + de.Name()); err == nil {
			l = append(l, to)
		}
	}
	return l
}

func levelNow() level { return level{ownFDs(), clientGoroutines()} }

// kinds summarizes open files for a report.
func kinds(fds []string) string {
	n := map[string]int{}
	for _, f := range fds {
		if i := strings.IndexByte(f, '['); i > 0 {
			f = f[:i]
		}
		n[filepath.Base(f)]++
	}
	var l []string
	for k, v := range n {
		l = append(l, fmt.Sprintf("%d x %s", v, k))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// settle waits until the level is what it was.
func settle(c *Ctx, phase string, base level) bool {
	var now level
	start := time.Now()
	ok := c.WaitFor(60*time.Second, func() bool {
		now = levelNow()
		return len(now.fds) <= len(base.fds) && len(now.goroutines) <= len(base.goroutines)
	})
	c.ObsMax("longest time until a phase's resources were released (ms)", int(time.Since(start).Milliseconds()))
	if ok {
		return true
	}
	if len(now.fds) > len(base.fds) {
		c.Fail("open-files: "+phase, nil, "60 s after %s, %d files are open, %d before: now %s; then %s", phase, len(now.fds), len(base.fds), kinds(now.fds), kinds(base.fds))
	}
	if len(now.goroutines) > len(base.goroutines) {
		c.fail(Violation{Sig: "goroutines: " + phase, What: fmt.Sprintf("60 s after %s, %d goroutines of the client are running, %d before", phase, len(now.goroutines), len(base.goroutines)), Detail: clientStacks()})
	}
	return false
}

func baseline() level {
	best := levelNow()
	for i := 0; i < 20; i++ {
		time.Sleep(50 * time.Millisecond)
		now := levelNow()
		if len(now.fds) < len(best.fds) {
			best.fds = now.fds
		}
		if len(now.goroutines) < len(best.goroutines) {
			best.goroutines = now.goroutines
		}
	}
	return best
}

func c21(c *Ctx) {
	c.Rule(`Many uploads (completed, never acked, cut off after any number of acks, window 0, reopened on the same port, refused, of
		files that are truncated, removed or unshared meanwhile, to addresses that cannot be sent to), downloads (completed, from
		peers that are silent, die, to a disk that is full or a file that cannot be opened, send every hostile script of C05, or are gone; unshared at any time), own and foreign
		discoveries and listings (answered, unanswered, refused, garbage), shares and cleans that succeed and fail. After
		each phase, open files and the client's goroutines must return to the level before within 60 s, without help of the
		garbage collector. Then the same on a real daemon that may open 64 files. Distinct by kind of transfer and sizes.`)
	debug.SetGCPercent(-1) // it would close what was forgotten
	debug.SetMemoryLimit(8 << 30)
	for n := 0; n < c.N(1, 8) && c.Failed() == 0 && os.Getenv("MON_ONLY") == ""; n++ {
		c21Uploads(c, n)
		c21Requests(c, n)
		c21Downloads(c, n)
		c21Catalogue(c, n)
		debug.SetGCPercent(100)
		debug.FreeOSMemory()
		debug.SetGCPercent(-1)
	}
	c21Real(c, 0) // not at the same time: the harness would count what it opens for it
}

var upKinds = []string{"completed", "never acked", "abandoned", "window 0", "reopened", "other chunk on the same port", "unknown file", "chunk out of range", "port 0", "broadcast address", "IPv6 address",
	"truncated meanwhile", "unshared meanwhile", "removed meanwhile", "truncated before", "removed before", "directory instead", "window 65535 abandoned"}

func c21Uploads(c *Ctx, n int) {
	r := c.Rng("uploads", n)
	st := newStore(c)
	h := newHost(c, st, 0)
	defer h.close()
	files := uploadFiles(c, st, r, 10, false)
	time.Sleep(200 * time.Millisecond)
	base := baseline()
	per := c.N(30, 200)
	Par(16, len(upKinds)*per, func(k int) {
		if c.Failed() > 0 {
			return
		}
		kind := upKinds[k%len(upKinds)]
		r := c.Rng("upload", n*100000+k)
		f := files[r.IntN(len(files))]
		i := f.have[r.IntN(len(f.have))]
		if strings.Contains(kind, "meanwhile") || strings.Contains(kind, "before") || strings.Contains(kind, "instead") {
			// a file of its own
			f = &chunkFile{data: randBytes(r, 3000+r.IntN(60000)), chunk: defaultChunk}
			f.hash = sum(f.data)
			f.path = filepath.Join(filepath.Dir(st.Dir), "user", fmt.Sprintf("own-%d-%d", n, k))
			i = 0
			write(f.path, f.data)
			if _, err := st.Cat.ShareFile(f.path); err != nil {
				c.Fail("share", kind, "%v", err)
				return
			}
		}
		s := newSock(ip127(r.IntN(500)), 0)
		defer s.close()
		window := 1 + r.IntN(12)
		acks := func(n int) {
			for x := 0; x < n; x++ {
				if p, ok := s.next(300 * time.Millisecond); ok {
					if off, _, ok := wData(p.data); ok {
						s.send(h.addr, encAck(off))
					}
				}
			}
		}
		open := func(chunk, window int) { s.send(h.addr, encOpen(f.hash, uint16(chunk), uint16(window))) }
		switch kind {
		case "completed":
			x := &xfer{c: c, r: r, peer: s, to: h.addr, hash: f.hash, index: i, want: chunkOf(f.data, f.chunk, i), cap: randCap(r), pol: ackPolicy(r.IntN(int(ackTwice)))}
			x.run()
		case "never acked":
			open(i, window)
		case "abandoned":
			open(i, window)
			acks(1 + r.IntN(20))
		case "window 65535 abandoned":
			open(i, 65535)
			acks(1 + r.IntN(3))
		case "window 0":
			open(i, 0)
			acks(3)
		case "reopened":
			for x := 0; x < 5; x++ {
				open(i, window)
				acks(r.IntN(4))
			}
		case "other chunk on the same port":
			for x := 0; x < 5; x++ {
				f = files[r.IntN(len(files))]
				open(f.have[r.IntN(len(f.have))], window)
				acks(r.IntN(3))
			}
		case "unknown file":
			s.send(h.addr, encOpen(randHash(r), 0, 5))
			acks(1)
		case "chunk out of range":
			open(f.count()+r.IntN(100), 5)
			acks(1)
		case "port 0":
			h.handle(encOpen(f.hash, uint16(i), 5), &net.UDPAddr{IP: s.addr.IP, Port: 0})
		case "broadcast address":
			h.handle(encOpen(f.hash, uint16(i), 5), &net.UDPAddr{IP: net.IPv4bcast.To4(), Port: 1000 + r.IntN(1000)})
		case "IPv6 address":
			h.handle(encOpen(f.hash, uint16(i), 5), &net.UDPAddr{IP: net.IPv6loopback, Port: 1000})
		case "truncated meanwhile":
			open(i, 1)
			acks(2)
			os.Truncate(f.path, int64(r.IntN(2000)))
			acks(20)
		case "removed meanwhile":
			open(i, 1)
			acks(2)
			os.Remove(f.path)
			acks(4)
		case "unshared meanwhile":
			open(i, 1)
			acks(2)
			st.Cat.UnshareFile(sha(f.hash))
			acks(2)
		case "truncated before":
			os.Truncate(f.path, int64(r.IntN(len(f.data))))
			open(i, window)
			acks(3)
		case "removed before":
			os.Remove(f.path)
			open(i, window)
			acks(1)
		case "directory instead":
			os.Remove(f.path)
			os.Mkdir(f.path, 0755)
			open(i, window)
			acks(1)
		}
		c.Eval(fmt.Sprintf("upload %s %d %d", kind, len(f.data), i))
		c.Obs("uploads "+kind, 1)
	})
	c.ObsMax("most open files during uploads", len(ownFDs()))
	settle(c, "uploads", base)
}

func c21Requests(c *Ctx, n int) {
	r := c.Rng("requests", n)
	st := newStore(c)
	d := newDownOn(c, c.Dir("d"), st)
	h := newHost(c, st, 0)
	uploadFiles(c, st, r, 3, false)
	silent := newSock(ip127(700), 0)
	garbage := newPeer(ip127(701))
	g := &noise{r: c.Rng("noise", n), ids: func() uint16 { return 1 }}
	garbage.onList = func(p *Peer, from *net.UDPAddr, m wMsg) { p.sock.send(from, g.next()) }
	closed := newSock(ip127(702), 0)
	closed.close()
	base := baseline()
	Par(24, c.N(240, 2000), func(k int) {
		if c.Failed() > 0 {
			return
		}
		r := c.Rng("request", n*10000+k)
		c.Await("request", k, func() {
			a := []*net.UDPAddr{silent.addr, garbage.sock.addr, closed.addr, h.addr}[k%4]
			switch r.IntN(3) {
			case 0:
				d.srv.DiscoverHosts(sha(randHash(r)), randChunks(r, r.IntN(5)))
				c.Obs("own discoveries", 1)
			case 1:
				d.srv.ListFilesOnHost([4]byte(a.IP.To4()), uint16(a.Port), sha(blankHash))
				c.Obs("own listings", 1)
			default:
				for x := 0; x < 20; x++ {
					h.handle(encDiscReq(uint16(x), randHash(r), nil), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 5})
					h.handle(encListReq(uint16(x), randHash(r)), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 5})
					h.handle(encDiscReq(uint16(x), randHash(r), nil), &net.UDPAddr{IP: net.IPv4bcast, Port: 5})
				}
				c.Obs("foreign requests", 60)
			}
		})
		c.Eval(fmt.Sprintf("request %d", k))
	})
	settle(c, "discoveries and listings", base)
	silent.close()
	garbage.close()
	h.close()
	d.lan.close()
}

// c21Downloads plays many downloads on servers of their own.
func c21Downloads(c *Ctx, n int) {
	scripts := hostileScripts()
	kindsOf := []string{"completed", "completed", "silent peer", "peer dies", "unshared", "peer gone", "no such file", "bad listing", "disk full", "cannot be opened"}
	for _, s := range scripts {
		if !s.slow && !strings.Contains(s.name, "for ever") {
			kindsOf = append(kindsOf, "script: "+s.name)
		}
	}
	byName := map[string]*script{}
	for i := range scripts {
		byName["script: "+scripts[i].name] = &scripts[i]
	}
	for i := 0; i < c.N(20, 200); i++ {
		kindsOf = append(kindsOf, kindsOf[i%10])
	}
	base := baseline()
	Par(150, len(kindsOf), func(k int) {
		if c.Failed() > 0 {
			return
		}
		kind := kindsOf[k]
		r := c.Rng("download", n*10000+k)
		d := newDown(c)
		defer d.lan.close()
		defer c.rm(d.base)
		p := newPeer(ip127(1000 + k))
		defer p.close()
		chunk := 1100 + r.IntN(3000)
		data := randBytes(r, chunk+1+r.IntN(chunk-1))
		hash := sum(data)
		p.serve(hash, data, chunk, "x.bin")
		honest := p.onOpen
		switch {
		case kind == "silent peer":
			p.onOpen = nil
		case kind == "peer dies":
			p.onAck = nil
		case kind == "no such file":
			p.onList = func(p *Peer, from *net.UDPAddr, m wMsg) { p.sock.send(from, encListResp(m.ReqID, nil)) }
		case kind == "bad listing":
			p.onList = func(p *Peer, from *net.UDPAddr, m wMsg) {
				p.sock.send(from, encListResp(m.ReqID, []wFile{{Size: 10, ChunkSize: 0, Hash: hash, Name: "../x"}}))
			}
		case byName[kind] != nil:
			s := byName[kind]
			p.onAck = nil
			n := 0
			p.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
				if m.Hash != hash || n > 3 {
					return
				}
				n++
				a := &attack{r: rand.New(rand.NewPCG(uint64(k), 5)), p: p, to: from, chunk: int(m.Chunk), all: data, size: chunk, data: chunkOf(data, chunk, int(m.Chunk)), stop: func() bool { return true }}
				s.run(a)
			}
		}
		if kind == "disk full" || kind == "cannot be opened" {
			var once sync.Once
			p.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
				once.Do(func() {
					if ir, err := d.st.Cat.Contains(sha(hash)); err == nil {
						os.Remove(ir.FilePath)
						if kind == "disk full" {
							os.Symlink("/dev/full", ir.FilePath) // writing fails
						} else {
							os.Mkdir(ir.FilePath, 0755)
						}
					}
				})
				honest(p, from, m)
			}
		}
		d.lan.set(p.sock.addr)
		if kind == "peer gone" {
			p.sock.close()
		}
		for x := 0; x < 1+r.IntN(3); x++ { // also more than once
			c.Await("get", kind, func() { d.srv.StartDownload(sha(hash)) })
		}
		if kind == "completed" {
			if !c.WaitFor(60*time.Second, func() bool { ok, _ := d.complete(data); return ok }) {
				c.Obs("downloads that did not complete in time", 1)
			}
		} else {
			for end := time.Now().Add(time.Duration(3+r.IntN(9)) * time.Second); time.Now().Before(end); {
				time.Sleep(100 * time.Millisecond)
				c.Beat()
			}
		}
		d.stop() // given up
		c.Eval(fmt.Sprintf("download %s %d", kind, len(data)))
		c.Obs("downloads "+strings.SplitN(kind, ":", 2)[0], 1)
	})
	settle(c, "downloads", base)
}

// c21Catalogue runs local operations, including those that fail.
func c21Catalogue(c *Ctx, n int) {
	r := c.Rng("catalogue", n)
	st := newStore(c)
	h := newHost(c, st, 0)
	defer h.close()
	m := cli.NewMethods(st.Cat, h.srv)
	user := filepath.Join(filepath.Dir(st.Dir), "user")
	must(os.MkdirAll(filepath.Join(user, "dir"), 0755))
	base := baseline()
	for k := 0; k < c.N(300, 3000); k++ {
		p := filepath.Join(user, fmt.Sprintf("f%d", k%40))
		c.Await("operation", k, func() {
			switch r.IntN(8) {
			case 0:
				m.Share(&cli.ShareRequest{Filepath: filepath.Join(user, "dir")}, &cli.ListItem{})
			case 1:
				m.Share(&cli.ShareRequest{Filepath: p + ".none"}, &cli.ListItem{})
			case 2:
				m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{})
			case 3:
				if files, err := st.Cat.ListFiles(); err == nil && len(files) > 0 {
					st.Cat.UnshareFile(&files[0].Sha1Hash)
				}
			case 4:
				os.Remove(p)
			case 5:
				data := randBytes(r, 100)
				st.seed(data, 30, "x", randHave(r, 4))
			default:
				os.Remove(p)
				write(p, randBytes(r, r.IntN(200)*r.IntN(2)))
				m.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) // also duplicates
				m.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{})
			}
		})
		c.Eval(fmt.Sprintf("operation %d", k))
	}
	c.Obs("local operations", c.N(300, 3000))
	settle(c, "local operations", base)
}

// c21Real plays transfers with a daemon that may open few files.
func c21Real(c *Ctx, lab int) {
	r := c.Rng("real", lab)
	h := newReal(c, lab, 2)
	defer c.rm(h.dir)
	defer h.close()
	h.prefix = []string{"prlimit", "--nofile=64"}
	kase := map[string]any{"real daemon with at most": "64 open files"}
	f := &chunkFile{data: randBytes(r, 40000), chunk: defaultChunk, have: []int{0}, path: h.inner + "/work/f.bin"}
	f.hash = sum(f.data)
	write(h.path(f.path), f.data)
	if !h.start() {
		c.Fail("start", kase, "the daemon does not start: %s", h.crash())
		return
	}
	if out, code := h.cli("", "share", f.path); code != 0 {
		c.Fail("share", kase, "sharing fails: %d %q", code, out)
		return
	}
	disc := onBridge(lab)
	defer disc.close()
	peer := newPeerOn(disc) // the harness plays a host on this network
	other := randBytes(r, 2500)
	peer.serve(sum(other), other, 1300, "other.bin")
	peer.onDisc = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if m.Hash == sum(other) {
			p.sock.send(h.addr(), encDiscResp(m.ReqID, [4]byte(net.ParseIP(bridgeIP(lab)).To4()), daemonPort, []uint16{0, 1}))
		}
	}
	complete := func(window int) bool {
		for try := 0; try < 5; try++ {
			s := newSock(bridgeIP(lab), 0)
			x := &xfer{c: c, r: r, peer: s, to: h.addr(), hash: f.hash, index: 0, want: f.data, cap: window, pol: ackEach, again: try < 2, diag: func() string {
				return fmt.Sprintf("files: %s\n%s", kinds(h.fds()), tail(h.log(), 3000))
			}}
			ok := x.run()
			s.close()
			if x.failed {
				return false
			}
			if ok {
				break
			}
		}
		c.Obs("real uploads completed", 1)
		return true
	}
	if !complete(5) {
		return
	}
	var fds []string
	c.WaitFor(15*time.Second, func() bool { fds = h.fds(); return false })
	base := len(fds)
	released := func(after string) bool {
		var now []string
		if c.WaitFor(60*time.Second, func() bool { now = h.fds(); return len(now) <= base }) {
			return true
		}
		if h.check(kase, after) {
			c.Fail("real-open-files", kase, "60 s after %s the daemon has %d files open, %d before: now %s; then %s", after, len(now), base, kinds(now), kinds(fds))
		}
		return false
	}
	for round := 0; round < c.N(2, 10); round++ {
		for i := 0; i < 100; i++ { // one after the other, more than it may have open
			if !complete(1 + r.IntN(30)) {
				h.check(kase, "during uploads")
				return
			}
		}
		if !released("uploads") {
			return
		}
		for i := 0; i < 40; i++ {
			s := newSock(bridgeIP(lab), 0)
			s.send(h.addr(), encOpen(f.hash, 0, uint16(r.IntN(10))))
			for x := r.IntN(5); x > 0; x-- {
				if p, ok := s.next(100 * time.Millisecond); ok {
					if off, _, ok := wData(p.data); ok {
						s.send(h.addr(), encAck(off))
					}
				}
			}
			s.send(h.addr(), encDiscReq(uint16(i), f.hash, nil))
			s.send(h.addr(), encListReq(uint16(i), f.hash))
			s.close()
			c.Obs("real uploads abandoned", 1)
		}
		for i := 0; i < 12; i++ { // clients that go away
			cl, err := rpc.Dial("unix", h.sock())
			if err == nil {
				cl.Go("Methods.Clean", &cli.CleanRequest{}, &cli.CleanResponse{}, nil)
				cl.Close()
			}
			if conn, err := net.Dial("unix", h.sock()); err == nil {
				conn.Write([]byte{1, 2, 3})
				conn.Close()
			}
		}
		if round == 0 {
			if out, code := h.cli("", "get", sum(other).String()); code != 0 || !strings.Contains(out, "initiated") {
				c.Fail("real-get", kase, "requesting a download: %d %q", code, out)
				return
			}
			c.WaitFor(30*time.Second, func() bool {
				b, err := readReg(filepath.Join(h.down(), "other.bin"))
				return err == nil && bytes.Equal(b, other)
			})
		}
		if !released("abandoned uploads") {
			return
		}
		c.Eval(fmt.Sprintf("real round %d", round))
	}
	if !complete(5) {
		return
	}
	time.Sleep(15 * time.Second)
	if !h.check(kase, "after many transfers") {
		return
	}
	// a look at its goroutines
	h.daemon.Process.Signal(syscall.SIGQUIT)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	select {
	case <-h.dead:
	case <-ctx.Done():
		c.Inconclusive("the daemon does not give its stacks")
		return
	}
	dump := string(tail(h.log(), 1<<20))
	i := strings.LastIndex(dump, "SIGQUIT")
	if i < 0 {
		c.Inconclusive("no stacks in %q", clipText(dump, 500))
		return
	}
	left := 0
	var one string
	for _, g := range strings.Split(dump[i:], "\n\n") {
		if strings.HasPrefix(g, "goroutine ") {
			c.Obs("goroutines of the idle real daemon", 1)
		}
		if strings.HasPrefix(g, "goroutine ") && strings.Contains(g, clientPkg+"/flu.") {
			left++
			one = g
		}
	}
	if left > 0 {
		c.fail(Violation{Sig: "real-goroutines", What: fmt.Sprintf("the idle daemon has %d goroutines of finished transfers", left), Case: kase, Detail: one})
	}
}
