package main

import (
	"bufio"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flu-network/client/flu"
)

func init() {
	register("C22", "fault_enumeration", c22)
	helpers["dlproc"] = helperDownload
}

// helperDownload is a downloading daemon in a process of its own. It reports every chunk that its
// catalogue lists as available.
func helperDownload(args []string) {
	dir, down, lanPort := args[0], args[1], args[2]
	st, err := openStore(dir, down)
	must(err)
	port, _ := strconv.Atoi(lanPort)
	srv := flu.NewServer(port, st.Cat)
	conn := listenUDP("udp4", "127.0.0.1", 0)
	go func() {
		for {
			buffer := make([]byte, 1024)
			n, from, err := conn.ReadFromUDP(buffer)
			if err != nil {
				panic(err)
			}
			go srv.HandleMessage(buffer[:n], conn, from)
		}
	}()
	out := os.Stdout
	os.Stdout = os.Stderr // what the client prints
	var mu sync.Mutex
	say := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		fmt.Fprintf(out, format+"\n", args...)
	}
	say("port %d", conn.LocalAddr().(*net.UDPAddr).Port)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		f := strings.Fields(in.Text())
		h := hashFromHex(f[1])
		switch f[0] {
		case "get":
			say("got %v", srv.StartDownload(sha(h)))
		case "watch":
			go func() {
				have := map[int]bool{}
				for ; ; time.Sleep(3 * time.Millisecond) {
					rec, err := st.Cat.Contains(sha(h))
					if err != nil {
						continue
					}
					for i := 0; i < rec.Progress.Size(); i++ {
						if rec.Progress.Get(uint64(i)) && !have[i] {
							have[i] = true
							say("have %d", i)
						}
					}
				}
			}()
		}
	}
}

func hashFromHex(s string) Hash { return hashOf(s).Data }

// dlProc is a running helperDownload.
type dlProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	port   int
	mu     sync.Mutex
	have   map[int]bool
	gots   []string
	dead   chan struct{}
	killed bool
	stderr string
}

func startDL(c *Ctx, dir, down string, lan *LAN, stderr string) *dlProc {
	p := &dlProc{have: map[int]bool{}, dead: make(chan struct{}), stderr: stderr}
	p.cmd = exec.Command(filepath.Join(c.Bin, "mon"), "dlproc", dir, down, fmt.Sprint(lan.port))
	f, err := os.Create(stderr)
	must(err)
	defer f.Close()
	p.cmd.Stderr = f
	p.in, err = p.cmd.StdinPipe()
	must(err)
	out, err := p.cmd.StdoutPipe()
	must(err)
	must(p.cmd.Start())
	ready := make(chan struct{})
	go func() {
		s := bufio.NewScanner(out)
		for s.Scan() {
			w := strings.SplitN(s.Text(), " ", 2)
			p.mu.Lock()
			switch w[0] {
			case "port":
				p.port, _ = strconv.Atoi(w[1])
				close(ready)
			case "have":
				i, _ := strconv.Atoi(w[1])
				p.have[i] = true
			case "got":
				p.gots = append(p.gots, w[1])
			}
			p.mu.Unlock()
		}
		p.cmd.Wait()
		close(p.dead)
	}()
	select {
	case <-ready:
	case <-p.dead:
	case <-time.After(60 * time.Second):
		p.kill()
	}
	lan.mu.Lock()
	lan.deliver = func(msg []byte) {
		lan.sock.conn.WriteToUDP(msg, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p.port})
	}
	lan.mu.Unlock()
	return p
}

func (p *dlProc) kill() {
	p.mu.Lock()
	p.killed = true
	p.mu.Unlock()
	p.cmd.Process.Signal(syscall.SIGKILL)
}

func (p *dlProc) say(format string, args ...any) { fmt.Fprintf(p.in, format+"\n", args...) }

func (p *dlProc) alive() bool {
	select {
	case <-p.dead:
		return false
	default:
		return true
	}
}

// crashed reports whether it ended by itself.
func (p *dlProc) crashed() (string, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.alive() || p.killed {
		return "", false
	}
	b := tail(p.stderr, 4000)
	return string(b), true
}

func (p *dlProc) got(n int) (string, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.gots) <= n {
		return "", false
	}
	return p.gots[n], true
}

func c22(c *Ctx) {
	c.Rule(`A downloading process is killed (SIGKILL) just as the network passes its n-th datagram, for every n of a download of
		a few chunks, and at random times, up to three times per download, and restarted; then the download is requested
		again from the same or another peer; and downloads of which any set of chunks is held are resumed by a new server. The chunks it reported or that its catalogue lists after the kill must keep their
		bytes and must not be requested again; the file must become exact; requesting it again then requests nothing.
		Distinct by kill points and sizes.`)
	c.Assume("killing a process loses nothing of what it has written to files")
	n := c.N(150, 2500)
	r := c.Rng("files", 0)
	sh := newSharer(c, r, nil)
	defer sh.h.close()
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); c22Held(c, sh, &mu) }()
	defer wg.Wait()
	Par(c.N(150, 150), n, func(k int) {
		if c.Failed() > 10 {
			return
		}
		jr := c.Rng("job", k)
		chunk := []int{400, 1000, 2500, 6000}[jr.IntN(4)]
		chunks := 3 + jr.IntN(3)
		if k%5 == 2 {
			chunks, chunk = 60+jr.IntN(150), 400
		}
		data := randBytes(jr, chunk*chunks-jr.IntN(chunk))
		kase := map[string]any{"size": len(data), "chunk size": chunk}
		sh.add2(c, &mu, data, chunk)
		c22Download(c, jr, k, sh, data, chunk, kase)
	})
}

// c22Held resumes downloads of which any set of chunks is held, with a server and catalogue started anew.
func c22Held(c *Ctx, sh *sharedHosts, mu *sync.Mutex) {
	Par(60, c.N(180, 1500), func(k int) {
		if c.Failed() > 10 {
			return
		}
		r := c.Rng("held", k)
		chunk := []int{100, 999, 1000, 1024, 2500, 1 + r.IntN(4000)}[r.IntN(6)]
		n := 1 + r.IntN(6)
		data := randBytes(r, max(5, chunk*n-r.IntN(chunk)))
		n = chunkCount(int64(len(data)), chunk)
		how := []string{"only the last", "only the first", "all but the last", "all but the first", "every other", "none", "all", "random"}[k%8]
		have := []int{}
		for i := 0; i < n; i++ {
			if map[string]bool{"only the last": i == n-1, "only the first": i == 0, "all but the last": i < n-1, "all but the first": i > 0,
				"every other": i%2 == 1, "all": true, "random": r.IntN(2) == 0}[how] {
				have = append(have, i)
			}
		}
		kase := map[string]any{"size": len(data), "chunk size": chunk, "held": fmt.Sprintf("%s: %v", how, have)}
		base := c.Dir("held")
		defer c.rm(base)
		st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
		must(err)
		if _, err := st.seed(randBytes(r, 700), 200, "name.bin", []int{1}); err != nil { // takes the name
			c.Fail("seed", kase, "%v", err)
			return
		}
		path, err := st.seed(data, chunk, []string{"name.bin", "other name.bin"}[r.IntN(2)], have)
		if err != nil {
			c.Fail("seed", kase, "%v", err)
			return
		}
		before, err := listing(st.Cat)
		if err != nil {
			c.Fail("listing", kase, "%v", err)
			return
		}
		sh.add2(c, mu, data, chunk)
		for restarts := 1 + r.IntN(2); restarts > 0; restarts-- {
			if st, err = openStore(st.Dir, st.Down); err != nil {
				c.Fail("reopen", kase, "%v", err)
				return
			}
		}
		d := newDownOn(c, base, st)
		defer d.lan.close()
		px := newProxy(c, sh.h.addr, ip127(40000+k))
		defer px.close()
		d.lan.set(px.addr)
		quiet := tree(base, treeContent|treeTimes)
		f := &fetch{c: c, kase: kase, data: data, chunk: chunk, down: d, deadline: 70*time.Second + time.Duration(n)*10*time.Second}
		ok, why := f.run(func(i int, what string) {
			c.Fail("bytes", kase, "chunk %d is listed as available, but its bytes are not there: %s", i, what)
		})
		if !ok {
			c.Fail("incomplete", kase, "the resumed download does not complete: %s", why)
			d.stop()
			return
		}
		if how == "all" {
			time.Sleep(1500 * time.Millisecond)
			if diff := tree(base, treeContent|treeTimes).diff(quiet); len(diff) > 0 {
				c.Fail("changed", kase, "requesting a complete file changed %v", diff)
			}
		}
		asked := map[int]bool{}
		for _, o := range px.opensSince(time.Time{}) {
			asked[o.chunk] = true
			for _, i := range have {
				if o.chunk == i {
					c.Fail("requested-again", kase, "chunk %d was available before the restart and has been requested again", i)
				}
			}
		}
		after, err := listing(st.Cat)
		want := before.clone()
		v := want[sum(data).String()]
		v.Have, v.Members = n, memberString(func(int) bool { return true }, n)
		want[sum(data).String()] = v
		if err != nil {
			c.Fail("listing", kase, "%v", err)
		} else if diff := after.diff(want); diff != "" {
			c.Fail("entry", kase, "resuming changed more than the available chunks: %s", diff)
		}
		if b, err := readReg(path); err != nil || string(b) != string(data) {
			c.Fail("content", kase, "the file is not the one asked for: %v %s", err, firstDiff(b, data))
		}
		c.Obs("downloads resumed with a set of chunks", 1)
		c.Obs("missing chunks requested", len(asked))
		c.Eval(fmt.Sprintf("held %d %d %v", len(data), chunk, have))
		d.stop()
	})
}

func c22Download(c *Ctx, r *rand.Rand, k int, sh *sharedHosts, data []byte, chunk int, kase map[string]any) {
	base := c.Dir("r")
	defer c.rm(base)
	dir, down := filepath.Join(base, "cat"), filepath.Join(base, "down")
	lan := newLAN(c)
	lan.deliver = func([]byte) {}
	defer lan.close()
	px := newProxy(c, sh.h.addr, ip127(k))
	defer px.close()
	lan.set(px.addr)
	hash := sum(data)
	n := chunkCount(int64(len(data)), chunk)
	held := map[int]bool{}
	if n > 20 { // most of it is there already
		st, err := openStore(dir, down)
		must(err)
		have := r.Perm(n)[:n-3-r.IntN(3)]
		if r.IntN(2) == 0 {
			sort.Ints(have)
		}
		if _, err := st.seed(data, chunk, "many chunks.bin", have); err != nil {
			c.Fail("seed", kase, "%v", err)
			return
		}
		for _, i := range have {
			held[i] = true
		}
		c.Obs("chunks held before the first start", len(have))
	}
	var kills []string
	kase["kills"] = &kills
	rounds := 1 + r.IntN(3)
	perChunk := 2 * len(chunkPackets(data[:min(chunk, len(data))]))
	for round := 0; ; round++ {
		last := round == rounds
		p := startDL(c, dir, down, lan, filepath.Join(base, fmt.Sprintf("stderr%d", round)))
		defer p.kill()
		if s, bad := p.crashed(); bad {
			c.Fail("start", kase, "the process does not start after having been killed: %s", s)
			return
		}
		at := -1
		when := time.Duration(-1)
		if !last {
			if r.IntN(4) > 0 {
				at = r.IntN(perChunk * 3)
				if round == 0 {
					at = k % (perChunk*min(3, n) + 2) // all of them, over the jobs
				}
				kills = append(kills, fmt.Sprintf("datagram %d", at))
			} else {
				when = time.Duration(r.IntN(9000)) * time.Millisecond
				kills = append(kills, when.String())
				time.AfterFunc(when, p.kill)
			}
		}
		seen := 0
		px.setFault(func(info packetInfo) []delivery {
			if info.chunk >= 0 {
				if seen == at {
					p.kill()
				}
				seen++
			}
			return nil
		})
		start := time.Now()
		p.say("watch %v", hash)
		p.say("get %v", hash)
		var why string
		limit := 70*time.Second + time.Duration(n-len(held))*10*time.Second
		tries := 1
		done := c.WaitFor(limit, func() bool {
			if !p.alive() {
				return true
			}
			if g, ok := p.got(tries - 1); ok && g != "<nil>" && tries < 10 {
				why = g
				tries++
				p.say("get %v", hash) // e.g. the listing was lost
			}
			p.mu.Lock()
			defer p.mu.Unlock()
			return len(p.have) == n
		})
		if s, bad := p.crashed(); bad {
			c.Fail("died", kase, "the downloading process died: %s", s)
			return
		}
		// nothing that was there may be requested again
		for _, o := range px.opensSince(start) {
			if held[o.chunk] {
				c.Fail("requested-again", kase, "chunk %d was available before the restart and has been requested again", o.chunk)
				return
			}
		}
		if last || (done && p.alive()) { // it is complete, before the kill
			if !done {
				p.mu.Lock()
				have := len(p.have)
				p.mu.Unlock()
				c.Fail("incomplete", kase, "after %d kills the download does not complete within %v: %d of %d chunks %s", len(kills), limit, have, n, why)
				return
			}
			c22Complete(c, p, px, dir, down, data, kase)
			c.Eval(fmt.Sprintf("%d %d %v", len(data), chunk, kills))
			if k%50 == 0 {
				c.Sample("download", map[string]any{"size": len(data), "chunk size": chunk, "kills": kills})
			}
			return
		}
		if p.alive() { // killed too late: nothing happened in time
			p.kill()
		}
		<-p.dead
		px.setFault(nil)
		c.Obs("kills", 1)
		list, _, err := reopened(dir, down)
		if err != nil {
			c.Fail("reopen", kase, "after a kill: %v", err)
			return
		}
		v, registered := list[hash.String()]
		reported := p.have
		for i := range held {
			reported[i] = true
		}
		for i := range reported {
			if !registered || !strings.Contains(" "+expandRanges(v.Members), fmt.Sprintf(" %d ", i)) {
				c.Fail("lost", kase, "chunk %d was available before the kill and is not any more: %+v", i, v)
				return
			}
		}
		if registered {
			file, _ := readReg(v.Path)
			for i := 0; i < n; i++ {
				if !strings.Contains(" "+expandRanges(v.Members), fmt.Sprintf(" %d ", i)) {
					continue
				}
				held[i] = true
				if string(chunkOf(file, chunk, i)) != string(chunkOf(data, chunk, i)) {
					c.Fail("bytes", kase, "chunk %d is available after the kill, but its bytes are not there", i)
					return
				}
			}
			c.Obs("chunks held across a kill", len(held))
		}
	}
}

// expand turns "0-2 4-4 " into "0 1 2 4 ".
func expandRanges(members string) string {
	var b strings.Builder
	for _, f := range strings.Fields(members) {
		var lo, hi int
		fmt.Sscanf(f, "%d-%d", &lo, &hi)
		for ; lo <= hi; lo++ {
			fmt.Fprintf(&b, "%d ", lo)
		}
	}
	return b.String()
}

// c22Complete checks the completed file, and that requesting it again does nothing.
func c22Complete(c *Ctx, p *dlProc, px *Proxy, dir, down string, data []byte, kase map[string]any) {
	hash := sum(data)
	check := func(when string) bool {
		list, _, err := reopened(dir, down)
		if err != nil {
			c.Fail("reopen", kase, "%s: %v", when, err)
			return false
		}
		v, ok := list[hash.String()]
		if !ok || v.Have != v.Count || len(list) != 1 {
			c.Fail("lost", kase, "%s the catalogue lists %+v", when, list)
			return false
		}
		file, err := readReg(v.Path)
		if err != nil || string(file) != string(data) {
			c.Fail("content", kase, "%s the file is not the one asked for: %v %s", when, err, firstDiff(file, data))
			return false
		}
		return true
	}
	if !check("when complete") {
		return
	}
	px.setFault(nil)
	time.Sleep(200 * time.Millisecond) // the last save may still be going on
	before := tree(filepath.Dir(dir), treeContent)
	start := time.Now()
	p.mu.Lock()
	n := len(p.gots)
	p.mu.Unlock()
	p.say("get %v", hash)
	if !c.WaitFor(75*time.Second, func() bool { _, ok := p.got(n); return ok || !p.alive() }) {
		c.Fail("hang", kase, "requesting a complete file did not return")
		return
	}
	time.Sleep(2500 * time.Millisecond)
	if s, bad := p.crashed(); bad {
		c.Fail("died", kase, "requesting a complete file killed the process: %s", s)
		return
	}
	for _, o := range px.opensSince(start) {
		c.Fail("requested-again", kase, "chunk %d of a complete file was requested", o.chunk)
		return
	}
	after := tree(filepath.Dir(dir), treeContent)
	for k := range after {
		if strings.HasPrefix(k, "stderr") {
			delete(after, k)
		}
	}
	for k := range before {
		if strings.HasPrefix(k, "stderr") {
			delete(before, k)
		}
	}
	if diff := after.diff(before); len(diff) > 0 {
		c.Fail("changed", kase, "requesting a complete file changed %v", diff)
		return
	}
	check("after requesting it again")
	c.Obs("complete files requested again", 1)
}
