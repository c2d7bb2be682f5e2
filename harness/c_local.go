package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flu-network/client/cli"
)

func init() { register("C30", "exploration", c30) }

// mixLab is one server that uploads and downloads, with the CLI's methods on top.
type mixLab struct {
	c    *Ctx
	r    *rand.Rand
	base string
	st   *Store
	h    *Host
	d    *Down
	cli  *cli.Methods
	kase map[string]any

	a, b  *chunkFile // being downloaded
	up    *chunkFile // being uploaded
	aPeer *Peer
	bPeer *Peer

	mu       sync.Mutex
	log      []string
	event    string // when to run the command
	fired    bool
	command  func()
	wait     bool // hold the transfer meanwhile
	commands sync.WaitGroup

	watch     atomic.Bool // a must not be in the index
	discs     atomic.Int64
	unshareUp bool
	bMayGo    atomic.Bool
}

func newMixLab(c *Ctx, r *rand.Rand, k int) *mixLab {
	base := c.Dir("mix")
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	l := &mixLab{c: c, r: r, base: base, st: st, kase: map[string]any{}}
	lan := newLAN(c)
	l.h = newHostAs(c, st, 0, lan.port)
	l.d = &Down{c: c, base: base, st: st, lan: lan, srv: l.h.srv}
	lan.mu.Lock()
	lan.deliver = func(msg []byte) {
		c.Guard("panic", fmt.Sprintf("%x", msg), func() {
			l.h.srv.HandleMessage(msg, l.h.conn, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: lan.port})
		})
	}
	lan.mu.Unlock()
	l.cli = cli.NewMethods(st.Cat, l.h.srv)
	file := func(n, chunk int) *chunkFile {
		f := &chunkFile{data: randBytes(r, n), chunk: chunk}
		f.hash = sum(f.data)
		for i := 0; i < f.count(); i++ {
			f.have = append(f.have, i)
		}
		return f
	}
	chunk := 1500 + r.IntN(3000)
	l.a = file(3*chunk-r.IntN(chunk-1100), chunk)
	l.b = file(2500, 1300)
	l.up = file(30000+r.IntN(20000), defaultChunk)
	l.up.path = filepath.Join(base, "user", "up.bin")
	write(l.up.path, l.up.data)
	if _, err := st.Cat.ShareFile(l.up.path); err != nil {
		c.Fail("share", nil, "%v", err)
	}
	l.aPeer, l.bPeer = newPeer(ip127(4*k)), newPeer(ip127(4*k+1))
	l.bPeer.serve(l.b.hash, l.b.data, l.b.chunk, "b.bin")
	l.aPeer.serve(l.a.hash, l.a.data, l.a.chunk, "a.bin")
	list := l.aPeer.onList
	l.aPeer.onList = func(p *Peer, from *net.UDPAddr, m wMsg) { l.fire("list"); list(p, from, m) }
	type flow struct {
		rest  [][]byte
		chunk uint16
	}
	flows := map[string]flow{} // only used by the peer's routine
	l.aPeer.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if m.Hash != l.a.hash {
			return
		}
		l.fire(fmt.Sprintf("open %d", m.Chunk))
		pk := chunkPackets(chunkOf(l.a.data, l.a.chunk, int(m.Chunk)))
		flows[from.String()] = flow{pk[1:], m.Chunk}
		p.sock.send(from, pk[0])
	}
	l.aPeer.onAck = func(p *Peer, from *net.UDPAddr, m wMsg) {
		f, ok := flows[from.String()]
		if !ok {
			return
		}
		delete(flows, from.String())
		l.fire(fmt.Sprintf("ack %d", f.chunk))
		for i, b := range f.rest {
			if i == len(f.rest)-1 {
				l.fire(fmt.Sprintf("last %d", f.chunk))
			}
			p.sock.send(from, b)
		}
		l.fire(fmt.Sprintf("end %d", f.chunk))
	}
	lan.only = func(peer *net.UDPAddr, h Hash) bool {
		return (peer == l.aPeer.sock.addr && h == l.a.hash) || (peer == l.bPeer.sock.addr && h == l.b.hash)
	}
	lan.set(l.aPeer.sock.addr, l.bPeer.sock.addr)
	return l
}

func (l *mixLab) close() {
	l.watch.Store(false)
	l.d.stop()
	l.d.lan.close()
	l.h.close()
	l.aPeer.close()
	l.bPeer.close()
	l.c.rm(l.base)
}

func (l *mixLab) note(format string, args ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.log = append(l.log, fmt.Sprintf(format, args...))
}

func (l *mixLab) fail(sig, format string, args ...any) {
	l.mu.Lock()
	kase := map[string]any{"steps": append([]string{}, l.log...)}
	for k, v := range l.kase {
		kase[k] = v
	}
	l.mu.Unlock()
	l.c.Fail(sig, kase, format, args...)
}

// fire runs the command if this is the moment for it.
func (l *mixLab) fire(event string) {
	l.mu.Lock()
	now := event == l.event && !l.fired
	if now {
		l.fired = true
		l.commands.Add(1)
	}
	l.log = append(l.log, event)
	l.mu.Unlock()
	if !now {
		return
	}
	run := func() { defer l.commands.Done(); l.command() }
	if l.wait {
		run()
	} else {
		go run()
	}
}

// do runs a command, which must return.
func (l *mixLab) do(name string, f func() error) (err error) {
	l.note("-> %s", name)
	l.c.Await("command", map[string]any{"command": name, "lab": l.kase}, func() { err = f() })
	l.note("<- %s: %v", name, err)
	return err
}

func (l *mixLab) get(f *chunkFile) error {
	return l.do("get "+f.hash.String()[:6], func() error { return l.cli.Get(&cli.GetRequest{Sha1Hash: sha(f.hash)}, &cli.GetResponse{}) })
}

func (l *mixLab) clean() error {
	if _, err := os.Stat(l.d.path(l.b.data)); err != nil {
		l.bMayGo.Store(true) // cleaning drops what has no file, also if it has just been requested
	}
	return l.do("clean", func() error { return l.cli.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) })
}

func (l *mixLab) unshare(f *chunkFile) error {
	return l.do("unshare "+f.hash.String()[:6], func() error { return l.st.Cat.UnshareFile(sha(f.hash)) })
}

func (l *mixLab) share(path string) error {
	return l.do("share "+filepath.Base(path), func() error { return l.cli.Share(&cli.ShareRequest{Filepath: path}, &cli.ListItem{}) })
}

// inIndex looks for a file in the catalogue and in its directory.
func (l *mixLab) inIndex(f *chunkFile) string {
	list, err := listing(l.st.Cat)
	if err != nil {
		return "" // being changed, or reported elsewhere
	}
	if v, ok := list[f.hash.String()]; ok {
		return fmt.Sprintf("it is listed as %+v", v)
	}
	if b, _ := os.ReadFile(filepath.Join(l.st.Dir, "index.json")); bytes.Contains(bytes.ToLower(b), []byte(f.hash.String())) {
		return "index.json names it"
	}
	if _, err := os.Stat(filepath.Join(l.st.Dir, f.hash.String())); err == nil {
		return "it has a progress file"
	}
	return ""
}

// what a command does to the download of a
const (
	stays    = iota // it goes on
	removed         // its entry is gone
	again           // gone, and requested again
	shared          // gone, and shared from elsewhere
	upGone          // nothing, but the uploaded file is gone
	ownCheck        // the command itself judged
)

type mixCommand struct {
	name   string
	effect int
	async  bool // needs the network, so it cannot run while the peer waits
	run    func(l *mixLab)
}

func mixCommands() []mixCommand {
	dropFile := func(l *mixLab) {
		if p := l.d.path(l.a.data); p != "" {
			os.Remove(p)
		}
	}
	copyOf := func(l *mixLab, f *chunkFile) string {
		p := filepath.Join(l.base, "user", "copy-"+f.hash.String()[:6])
		write(p, f.data)
		return p
	}
	retry := func(l *mixLab, f *chunkFile) {
		var err error
		for i := 0; i < 6; i++ {
			if err = l.get(f); err == nil {
				return
			}
		}
		l.fail("get-again", "requesting the download again fails: %v", err)
	}
	return []mixCommand{
		{"unshare", removed, false, func(l *mixLab) { l.unshare(l.a) }},
		{"delete the file and clean", removed, false, func(l *mixLab) {
			dropFile(l)
			l.clean()
			// if it was not there at that time, it may be now; if it was saved meanwhile, it is not missing
			if l.inIndex(l.a) != "" {
				l.unshare(l.a)
			}
		}},
		{"unshare twice", removed, false, func(l *mixLab) { l.unshare(l.a); l.unshare(l.a) }},
		{"unshare and get again", again, true, func(l *mixLab) { l.unshare(l.a); retry(l, l.a) }},
		{"unshare and share a copy", shared, false, func(l *mixLab) {
			l.unshare(l.a)
			if err := l.share(copyOf(l, l.a)); err != nil {
				l.fail("share", "a file whose download was removed cannot be shared: %v", err)
			}
		}},
		{"clean", stays, false, func(l *mixLab) {
			// a download without a file yet counts as missing
			if p := l.d.path(l.a.data); p != "" {
				if _, err := os.Stat(p); err == nil {
					l.clean()
				}
			}
		}},
		{"get again", stays, true, func(l *mixLab) { retry(l, l.a) }},
		{"get again thrice at once", stays, true, func(l *mixLab) {
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); retry(l, l.a) }()
			}
			wg.Wait()
		}},
		{"share the same content", stays, false, func(l *mixLab) {
			had := l.inIndex(l.a) != ""
			err := l.share(copyOf(l, l.a))
			if had && err == nil {
				l.fail("share-twice", "content that is being downloaded could be shared as well")
			}
		}},
		{"share another file", stays, false, func(l *mixLab) {
			p := filepath.Join(l.base, "user", "another")
			write(p, randBytes(rand.New(rand.NewPCG(1, 2)), 500))
			if err := l.share(p); err != nil {
				l.fail("share", "sharing fails: %v", err)
			}
		}},
		{"share the partial file itself", stays, false, func(l *mixLab) {
			if p := l.d.path(l.a.data); p != "" {
				l.share(p)
			}
		}},
		{"list", stays, false, func(l *mixLab) {
			var res cli.ListResponse
			if err := l.do("list", func() error { return l.cli.List(&cli.ListRequest{}, &res) }); err != nil {
				l.fail("list", "listing fails: %v", err)
			}
		}},
		{"list a host that is not there", stays, true, func(l *mixLab) {
			l.do("list", func() error {
				return l.cli.List(&cli.ListRequest{IP: net.IPv4(127, 255, 3, 4), Sha1Hash: sha(blankHash)}, &cli.ListResponse{})
			})
		}},
		{"chims", stays, true, func(l *mixLab) {
			if err := l.do("chims", func() error { return l.cli.Chims(&cli.ChimRequest{Sha1Hash: sha(blankHash)}, &cli.ChimResponseList{}) }); err != nil {
				l.fail("chims", "discovery fails: %v", err)
			}
		}},
		{"get something nobody has", stays, true, func(l *mixLab) {
			f := &chunkFile{hash: Hash{1, 2, 3}}
			if err := l.get(f); err == nil {
				l.fail("get-nothing", "requesting a file that nobody has succeeded")
			}
		}},
		{"get what is being uploaded", stays, true, func(l *mixLab) { l.get(l.up) }},
		{"unshare the uploaded file", upGone, false, func(l *mixLab) { l.unshareUp = true; l.unshare(l.up) }},
		{"unshare everything and get both again", again, true, func(l *mixLab) {
			l.unshare(l.b)
			l.unshare(l.a)
			l.unshareUp = true
			l.unshare(l.up)
			retry(l, l.a)
			retry(l, l.b)
		}},
		{"unshare and get again, three times", again, true, func(l *mixLab) {
			for i := 0; i < 3; i++ {
				l.unshare(l.a)
				retry(l, l.a)
			}
		}},
		{"delete the file", stays, false, func(l *mixLab) {}},
	}
}

func c30(c *Ctx) {
	c.Rule(`One real server downloads a file of three chunks and another one and uploads a third, while a CLI command (unshare, clean
		with and without a missing file, share the same or other content, list, discover, get again once or several times, after
		removal, of other files) is issued at a chosen point of the protocol (list request, opening, first ack, before and after
		the end marker of the first, middle and last chunk) or at a random time, holding the transfer meanwhile or not. Monitors:
		every command returns, the process lives, removed downloads do not reappear in listing, index.json or progress files and
		request nothing further, the others complete with their bytes, uploads are exact, and no chunk is requested after
		completion. Downloads that are removed and not requested again. Commands while a peer takes minutes to send a chunk. Real daemons under random command histories. Then share and clean of a file of 4 GiB, during which listing,
		sharing and opening transfers must not wait. Distinct by command, moment and order of events.`)
	cmds := mixCommands()
	events := []string{"list", "open 0", "ack 0", "last 0", "end 0", "open 1", "last 1", "ack 2", "last 2", "end 2", "random"}
	type job struct {
		cmd   mixCommand
		event string
		wait  bool
	}
	var jobs []job
	for n := 0; n < c.N(1, 12); n++ {
		for i, cmd := range cmds {
			for e, event := range events {
				if event == "list" && (cmd.effect == removed || cmd.effect == shared) {
					continue // there is nothing to remove yet
				}
				if event == "random" && cmd.async {
					jobs = append(jobs, job{cmd, event, false})
				}
				if cmd.async {
					jobs = append(jobs, job{cmd, event, false})
					continue
				}
				if !c.Quick || (i+e)%2 == 0 {
					jobs = append(jobs, job{cmd, event, false})
				}
				if event != "random" && (!c.Quick || (i+e)%2 == 1 || strings.HasPrefix(event, "last") || cmd.effect == removed) {
					jobs = append(jobs, job{cmd, event, true})
				}
			}
		}
	}
	var wg sync.WaitGroup
	for lab := 0; lab < 3; lab++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < c.N(2, 25) && c.Failed() < 10; n++ {
				c30Real(c, lab+3*n, n)
			}
		}()
	}
	c.Rng("order", 0).Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	Par(130, len(jobs), func(k int) {
		if c.Failed() > 10 {
			return
		}
		j := jobs[k]
		r := c.Rng("mix", k)
		l := newMixLab(c, r, k)
		defer l.close()
		l.kase["command"], l.kase["at"], l.kase["transfer waits"] = j.cmd.name, j.event, j.wait
		c.Crumb("%v", l.kase)
		l.event, l.wait = j.event, j.wait
		l.command = func() { j.cmd.run(l) }
		l.play(j.cmd)
		c.Eval(fmt.Sprint(l.kase, l.log))
		if k%50 == 0 {
			c.Sample("history", map[string]any{"case": l.kase, "events": l.log})
		}
	})
	wg.Wait()
	if c.Failed() == 0 {
		c30Stops(c)
	}
	if c.Failed() == 0 {
		c30Slow(c)
	}
	if c.Failed() == 0 {
		c30Busy(c)
	}
}

// c30Slow issues commands while a peer takes for ever to send a chunk.
func c30Slow(c *Ctx) {
	n := c.N(8, 32)
	Par(n, n, func(k int) {
		r := c.Rng("slow", k)
		d := newDown(c)
		defer c.rm(d.base)
		defer d.lan.close()
		defer d.stop()
		data := randBytes(r, 60000)
		other := randBytes(r, 3000)
		slow := newPeer(ip127(54000 + 2*k))
		defer slow.close()
		slow.serve(sum(data), data, 50000, "slow")
		opened := make(chan struct{}, 100)
		stop := make(chan struct{})
		var senders sync.WaitGroup
		defer senders.Wait()
		defer close(stop)
		slow.onAck = nil
		slow.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
			want := chunkOf(data, 50000, int(m.Chunk))
			p.sock.send(from, encOpening(sum(want), uint32(len(want)), want[:10]))
			select {
			case opened <- struct{}{}:
			default:
			}
			senders.Add(1)
			go func() {
				defer senders.Done()
				for off := 10; off+10 < len(want); off += 10 {
					select {
					case <-stop:
						return
					case <-time.After(1500 * time.Millisecond):
					}
					p.sock.send(from, encData(uint32(off), want[off:off+10]))
				}
			}()
		}
		quick := newPeer(ip127(54001 + 2*k))
		defer quick.close()
		quick.serve(sum(other), other, 1000, "quick")
		d.lan.mu.Lock()
		d.lan.only = func(peer *net.UDPAddr, h Hash) bool { return (peer == slow.sock.addr) == (h == sum(data)) }
		d.lan.mu.Unlock()
		d.lan.set(slow.sock.addr, quick.sock.addr)
		var err error
		for try := 0; try < 5; try++ {
			if err = d.srv.StartDownload(sha(sum(data))); err == nil {
				break
			}
		}
		if err != nil {
			c.Fail("get", nil, "a download cannot be requested: %v", err)
			return
		}
		select {
		case <-opened:
		case <-time.After(60 * time.Second):
			c.Obs("slow downloads that did not begin", 1) // C03 judges that
			return
		}
		m := cli.NewMethods(d.st.Cat, d.srv)
		user := filepath.Join(d.base, "user", "mine")
		write(user, randBytes(r, 500))
		cmds := map[string]func() error{
			"get another file":   func() error { return d.srv.StartDownload(sha(sum(other))) },
			"get the same again": func() error { return d.srv.StartDownload(sha(sum(data))) },
			"list":               func() error { return m.List(&cli.ListRequest{}, &cli.ListResponse{}) },
			"share":              func() error { return m.Share(&cli.ShareRequest{Filepath: user}, &cli.ListItem{}) },
			"clean":              func() error { return m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) },
			"chims":              func() error { d.srv.DiscoverHosts(sha(sum(other)), nil); return nil },
			"list remotely": func() error {
				d.srv.ListFilesOnHost([4]byte(quick.sock.addr.IP.To4()), uint16(quick.sock.addr.Port), sha(sum(other)))
				return nil
			},
			"open a transfer": func() error {
				d.srv.HandleMessage(encOpen(sum(other), 0, 3), nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9})
				return nil
			},
			"unshare": func() error { return d.st.Cat.UnshareFile(sha(sum(data))) },
		}
		names := sortedKeys(cmds)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for _, name := range names {
			if name == "unshare" {
				continue
			}
			c30Timely(c, name, cmds[name])
		}
		c30Timely(c, "unshare", cmds["unshare"])
		c.Eval(fmt.Sprint("slow ", names))
	})
}

// c30Timely runs a command that has to return soon, although a download is going on.
func c30Timely(c *Ctx, name string, f func() error) {
	const limit = 60 * time.Second
	kase := map[string]any{"command": name, "while": "a peer is slow to send a chunk"}
	done := make(chan struct{})
	start := time.Now()
	go func() {
		defer close(done)
		c.Guard("panic", kase, func() {
			if err := f(); err != nil {
				c.Obs("commands during a slow download that failed", 1)
			}
		})
	}()
	for {
		select {
		case <-done:
			c.Obs("commands during a slow download", 1)
			return
		case <-time.After(time.Second):
			c.Beat()
			if time.Since(start) > limit {
				c.fail(Violation{Sig: "slow-" + name, What: fmt.Sprintf("while a peer takes long to send a chunk, %s does not return within %v", name, limit), Case: kase, Detail: clipText(clientStacks(), 4000)})
				return
			}
		}
	}
}

// c30Stops removes the entries of downloads that nobody requests again, and watches that nothing is done for
// them any more.
func c30Stops(c *Ctx) {
	n := c.N(40, 200)
	Par(n, n, func(k int) {
		r := c.Rng("stops", k)
		d := newDown(c)
		defer c.rm(d.base)
		defer d.lan.close()
		data := randBytes(r, 3*(1+r.IntN(3000))+5)
		p := newPeer(ip127(50000 + k))
		defer p.close()
		p.serve(sum(data), data, len(data)/3+1, "f")
		how := []string{"served", "silent", "gone"}[k%3]
		kase := map[string]any{"peer": how, "removed by": []string{"unshare", "clean"}[k%2]}
		if how == "silent" {
			p.onOpen = func(*Peer, *net.UDPAddr, wMsg) {}
		}
		d.lan.set(p.sock.addr)
		var err error
		for try := 0; try < 5; try++ {
			if err = d.srv.StartDownload(sha(sum(data))); err == nil {
				break
			}
		}
		if err != nil {
			c.Fail("get", kase, "a download cannot be requested: %v", err)
			return
		}
		if how == "gone" {
			d.lan.set()
		}
		time.Sleep(time.Duration(r.IntN(2500)) * time.Millisecond)
		if k%2 == 1 {
			if rec, err := d.st.Cat.Contains(sha(sum(data))); err == nil {
				os.Remove(rec.FilePath)
			}
			m := cli.NewMethods(d.st.Cat, d.srv)
			c.Await("clean", kase, func() { m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) })
		}
		c.Await("unshare", kase, func() { d.st.Cat.UnshareFile(sha(sum(data))) })
		time.Sleep(9 * time.Second) // those of a peer that is silent take so long
		from := len(p.requested())
		time.Sleep(3 * time.Second)
		if len(p.requested()) > from {
			c.Fail("goes-on", kase, "9 s after the download was removed, a chunk was requested")
		}
		c.Obs("removed downloads watched", 1)
	})
	var left []string
	if !c.WaitFor(60*time.Second, func() bool {
		left = nil
		for _, g := range clientGoroutines() {
			if strings.Contains(g, "StartDownload") {
				left = append(left, g)
			}
		}
		return len(left) == 0
	}) {
		c.fail(Violation{Sig: "does-not-stop", What: fmt.Sprintf("a minute after the entries of all downloads have been removed, %d of them still run", len(left)), Detail: clipText(strings.Join(left, "\n\n"), 4000)})
	}
}

// c30Busy lets commands read a large file, and watches that nothing else waits until they are done.
func c30Busy(c *Ctx) {
	r := c.Rng("busy", 0)
	base := c.Dir("busy")
	defer c.rm(base)
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	h := newHostAs(c, st, 0, 0)
	defer h.close()
	m := cli.NewMethods(st.Cat, h.srv)
	up := randBytes(r, 30000)
	p := filepath.Join(base, "user", "up.bin")
	write(p, up)
	if _, err := st.Cat.ShareFile(p); err != nil {
		c.Fail("share", nil, "%v", err)
		return
	}
	large := filepath.Join(base, "user", "large")
	f, err := os.Create(large)
	must(err)
	must(f.Truncate(int64(c.N(4, 16))<<30 + 12345)) // a hole
	f.Close()
	for _, busy := range []string{"share", "clean"} {
		kase := map[string]any{"while": busy + " reads a large file"}
		done := make(chan error, 1)
		ended := make(chan struct{})
		began := time.Now()
		go func() {
			defer close(ended)
			if busy == "share" {
				done <- m.Share(&cli.ShareRequest{Filepath: large}, &cli.ListItem{})
			} else {
				done <- m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{})
			}
		}()
		go func() {
			for {
				select {
				case <-ended:
					return
				case <-time.After(time.Second):
					c.Beat()
				}
			}
		}()
		time.Sleep(300 * time.Millisecond)
		over := func() bool {
			select {
			case <-ended:
				return true
			default:
				return false
			}
		}
		slowest, slowestWhat := time.Duration(0), ""
		for n := 0; !over() && n < 200 && c.Failed() == 0; n++ {
			what := []string{"list", "share", "transfer"}[n%3]
			at := time.Now()
			finished := make(chan error, 1)
			go func() {
				switch what {
				case "list":
					finished <- m.List(&cli.ListRequest{}, &cli.ListResponse{})
				case "share":
					q := filepath.Join(base, "user", fmt.Sprintf("small-%s-%d", busy, n))
					write(q, randBytes(c.Rng("small "+busy, n), 100))
					finished <- m.Share(&cli.ShareRequest{Filepath: q}, &cli.ListItem{})
				case "transfer":
					s := newSock("127.0.0.1", 0)
					defer s.close()
					s.send(h.addr, encOpen(sum(up), 0, 8))
					if _, ok := s.next(time.Minute); !ok {
						finished <- fmt.Errorf("no answer to a transfer request")
						return
					}
					finished <- nil
				}
			}()
			select {
			case err := <-finished:
				if err != nil {
					c.Fail("busy-"+what, kase, "while %s reads a large file, %s fails: %v", busy, what, err)
				}
				c.Obs("commands while a large file is read", 1)
				if took := time.Since(at); took > slowest {
					slowest, slowestWhat = took, what
				}
			case <-ended: // did it wait for this?
				took := time.Since(at)
				select {
				case <-finished:
				case <-time.After(10 * time.Second):
				}
				if took > 1500*time.Millisecond {
					c.Fail("busy-"+what, kase, "%s waited for %v, until %s had read a large file, which took %v", what, took.Round(time.Millisecond), busy, time.Since(began).Round(time.Millisecond))
				}
			}
			time.Sleep(50 * time.Millisecond)
		}
		if err := <-done; err != nil {
			c.Fail("busy", kase, "%s: %v", busy, err)
			return
		}
		if all := time.Since(began); slowest > 1500*time.Millisecond && slowest > all/2 {
			c.Fail("busy-"+slowestWhat, kase, "%s waited for %v of the %v in which %s read a large file", slowestWhat, slowest.Round(time.Millisecond), all.Round(time.Millisecond), busy)
		}
		c.Eval("busy " + busy)
		c.ObsMax("ms a command read a large file", int(time.Since(began).Milliseconds()))
	}
}

func (l *mixLab) play(cmd mixCommand) {
	c, r := l.c, l.r
	// the upload goes on for as long as the rest
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		ur := rand.New(rand.NewPCG(c.Seed, 77))
		for {
			select {
			case <-stop:
				return
			default:
			}
			s := newSock("127.0.0.1", 0)
			if l.unshareUp {
				s.close()
				return
			}
			x := &xfer{c: c, r: ur, peer: s, to: l.h.addr, hash: l.up.hash, index: 0, want: l.up.data, cap: 8, pol: ackEach}
			if cmd.effect == upGone || l.removesUp(cmd) { // it may be cut off
				x.abandon = 5
				x.recv = 0
				s.send(l.h.addr, encOpen(l.up.hash, 0, 8))
				for i := 0; i < 20; i++ {
					if p, ok := s.next(100 * time.Millisecond); ok {
						if off, _, ok := wData(p.data); ok {
							s.send(l.h.addr, encAck(off))
						}
					}
				}
			} else if x.run() && !x.failed {
				c.Obs("uploads completed meanwhile", 1)
			}
			s.close()
			time.Sleep(200 * time.Millisecond)
		}
	}()
	defer func() { close(stop); wg.Wait() }()

	start := func(f *chunkFile) bool {
		var err error
		for i := 0; i < 4; i++ {
			if err = l.get(f); err == nil {
				return true
			}
			l.mu.Lock()
			fired := l.fired
			l.mu.Unlock()
			if fired && f == l.a {
				return true // the command interfered
			}
		}
		l.fail("get", "a download cannot be requested: %v", err)
		return false
	}
	var sg sync.WaitGroup
	sg.Add(2)
	good := true
	go func() { defer sg.Done(); good = start(l.a) && good }()
	go func() { defer sg.Done(); start(l.b) }()
	if l.event == "random" {
		wg.Add(1)
		l.commands.Add(1)
		go func() {
			defer wg.Done()
			defer l.commands.Done()
			time.Sleep(time.Duration(r.IntN(9000)) * time.Millisecond)
			sg.Wait()
			l.note("now")
			l.mu.Lock()
			l.fired = true
			l.mu.Unlock()
			l.command()
		}()
	}
	sg.Wait()
	if !good {
		return
	}
	// the command runs, or has run
	if !c.WaitFor(90*time.Second, func() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.fired }) {
		if c.Failed() == 0 {
			l.fail("no-progress", "the download has not reached %q within 90 s", l.event)
		}
		return
	}
	l.commands.Wait()
	c.Obs("commands issued during transfers", 1)
	if cmd.effect == removed || cmd.effect == shared {
		l.removedFor(cmd)
	} else {
		l.completes(l.a, cmd.effect)
	}
	if _, err := l.st.Cat.Contains(sha(l.b.hash)); err != nil && l.bMayGo.Load() && !start(l.b) {
		return
	}
	l.completes(l.b, cmd.effect)
	// it still works
	p := &prober{c: c, kase: l.kase, r: r, ip: "127.0.0.1", to: l.h.addr, files: nil}
	for _, f := range []*chunkFile{l.b, l.a, l.up} {
		rec, err := l.st.Cat.Contains(sha(f.hash))
		if err != nil {
			continue
		}
		f.path = rec.FilePath
		f.chunk = rec.ChunkSize
		f.have = nil
		for i := 0; i < f.count(); i++ {
			if rec.Progress.Get(uint64(i)) {
				f.have = append(f.have, i)
			}
		}
		p.files = append(p.files, f)
	}
	p.names = baseNames(p.files)
	for _, f := range p.files {
		if !p.list("afterwards", f) || !p.transfer("afterwards", f) {
			return
		}
	}
	if err := l.do("list", func() error { return l.cli.List(&cli.ListRequest{}, &cli.ListResponse{}) }); err != nil {
		l.fail("list", "listing fails afterwards: %v", err)
	}
	now, err := listing(l.st.Cat)
	if err != nil {
		l.fail("listing", "%v", err)
		return
	}
	disk, _, err := reopened(l.st.Dir, l.st.Down)
	if err != nil {
		l.fail("reopen", "%v", err)
	} else if d := disk.diff(now); d != "" {
		l.fail("disk", "the catalogue on disk is not the one in memory: %s", d)
	}
}

func (l *mixLab) removesUp(cmd mixCommand) bool { return strings.Contains(cmd.name, "everything") }

// removedFor watches that a removed download is gone for good.
func (l *mixLab) removedFor(cmd mixCommand) {
	removedAt := time.Now()
	for time.Since(removedAt) < 9*time.Second {
		l.c.Beat()
		if cmd.effect == removed {
			if what := l.inIndex(l.a); what != "" {
				l.fail("reappears", "%v after a download was removed, %s", time.Since(removedAt), what)
				return
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	for _, o := range l.aPeer.requested() {
		if o.at.Sub(removedAt) > 8*time.Second {
			l.fail("goes-on", "%v after the download was removed, chunk %d was requested", o.at.Sub(removedAt), o.chunk)
			return
		}
	}
	l.c.Obs("removed downloads watched", 1)
	if cmd.effect == shared {
		rec, err := l.st.Cat.Contains(sha(l.a.hash))
		if err != nil || !rec.Progress.Full() || !strings.HasPrefix(filepath.Base(rec.FilePath), "copy-") {
			l.fail("shared", "the file that was shared instead of downloaded is listed as %v (%v)", rec, err)
			return
		}
		if b, err := readReg(rec.FilePath); err != nil || !bytes.Equal(b, l.a.data) {
			l.fail("shared", "the shared file was changed: %v %s", err, firstDiff(b, l.a.data))
		}
		return
	}
	// and it can be requested again
	var err error
	for i := 0; i < 4; i++ {
		if err = l.get(l.a); err == nil {
			l.completes(l.a, again)
			return
		}
	}
	l.fail("get-again", "a removed download cannot be requested again: %v", err)
}

// completes waits for a download, and checks that nothing more is requested afterwards.
func (l *mixLab) completes(f *chunkFile, effect int) {
	limit := 150 * time.Second
	var why string
	if !l.c.WaitFor(limit, func() (ok bool) { ok, why = l.d.complete(f.data); return ok || strings.Contains(why, "differs") }) || strings.Contains(why, "differs") {
		l.fail("incomplete", "download %s: %s", f.hash.String()[:6], why)
		return
	}
	l.c.Obs("downloads completed", 1)
	done := time.Now()
	peer := l.aPeer
	if f == l.b {
		peer = l.bPeer
	}
	if f == l.a { // those that were on their way may still be served
		for time.Since(done) < 7*time.Second {
			l.c.Beat()
			time.Sleep(100 * time.Millisecond)
		}
		for _, o := range peer.requested() {
			if d := o.at.Sub(done); d > 6*time.Second {
				l.fail("goes-on", "%v after the download was complete, chunk %d was requested", d, o.chunk)
				return
			}
		}
		if ok, why := l.d.complete(f.data); !ok {
			l.fail("undone", "a completed download is not complete any more: %s", why)
		}
	}
}

// c30Real issues random commands on a real daemon that downloads from another one.
func c30Real(c *Ctx, lab, n int) {
	r := c.Rng("real", lab*1000+n)
	l := newLanLab(c, lab, 2)
	defer l.close()
	a, b := l.hosts[0], l.hosts[1]
	var files []seedFile
	for i := 0; i < 2; i++ {
		f := seedFile{Data: randBytes(r, 5*4000-r.IntN(3000)), Chunk: 4000, Name: fmt.Sprintf("f%d.bin", i)}
		for x := 0; x < 5; x++ {
			f.Have = append(f.Have, x)
		}
		files = append(files, f)
	}
	b.seed(files)
	own := randBytes(r, 50000)
	if !l.start(0) || !l.start(1) || !l.share(0, "own.bin", own) {
		return
	}
	hashes := []string{sum(files[0].Data).String(), sum(files[1].Data).String()}
	for _, f := range files {
		if !l.get0(0, sum(f.Data).String()) {
			return
		}
	}
	// random commands
	var wg sync.WaitGroup
	wg.Add(1)
	end := time.Now().Add(time.Duration(8+r.IntN(6)) * time.Second)
	var transfers atomic.Int64
	go func() { // somebody downloads from it
		defer wg.Done()
		for tries := 0; time.Now().Before(end); tries++ {
			s := newSock(bridgeIP(lab), 0)
			x := &xfer{c: c, r: rand.New(rand.NewPCG(1, uint64(n))), peer: s, to: a.addr(), hash: sum(own), index: 0, want: own, cap: 6, pol: ackEach, again: tries < 2}
			if x.run() && !x.failed {
				transfers.Add(1)
				tries = -1
			}
			s.close()
		}
	}()
	var mu sync.Mutex
	for w := 0; w < 3; w++ {
		wg.Add(1)
		wr := c.Rng("commands", lab*1000+n*10+w)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(end) && a.alive(); i++ {
				time.Sleep(time.Duration(wr.IntN(600)) * time.Millisecond)
				var args []string
				switch wr.IntN(9) {
				case 0:
					args = []string{"clean"}
				case 1:
					args = []string{"list"}
				case 2, 3:
					args = []string{"get", hashes[wr.IntN(2)]}
				case 4:
					args = []string{"list", b.ip}
				case 5:
					args = []string{"chims", hashes[wr.IntN(2)]}
				case 6:
					p := filepath.Join(a.dir, "work", fmt.Sprintf("c%d-%d", w, i))
					write(p, [][]byte{files[0].Data, files[1].Data, own, randBytes(wr, 100)}[wr.IntN(4)])
					if wr.IntN(2) == 0 { // whole copies would end the downloads
						write(p, randBytes(wr, 1000))
					}
					args = []string{"share", filepath.Join(a.inner, "work", filepath.Base(p))}
				case 7, 8: // downloads lose their files
					des, _ := os.ReadDir(a.down())
					for _, de := range des {
						os.Remove(filepath.Join(a.down(), de.Name()))
					}
					args = []string{"clean"}
				}
				out, code := a.cli("", args...)
				mu.Lock()
				l.step("%v -> %d %s", args, code, clipText(out, 60))
				if code != 0 || strings.Contains(out, "panic: ") {
					if a.check(l.kase, fmt.Sprintf("during %v", args)) {
						l.fail("real-command", "%v ended with %d: %s", args, code, clipText(out, 500))
					}
				}
				mu.Unlock()
				c.Obs("commands on real daemons", 1)
			}
		}()
	}
	wg.Wait()
	if !a.check(l.kase, "during random commands") {
		return
	}
	c.Obs("uploads of real daemons meanwhile", int(transfers.Load()))
	// now let it complete: what was removed is requested again
	for i, f := range files {
		var out string
		deadline := time.Now().Add(150 * time.Second)
		ok := false
		for time.Now().Before(deadline) && !ok {
			var code int
			out, code = a.cli("", "get", hashes[i])
			if !a.check(l.kase, "after random commands") {
				return
			}
			l.step("get -> %d %s", code, out)
			for x := 0; x < 8 && !ok; x++ {
				ok = l.has(a, hashes[i], f.Data)
				time.Sleep(500 * time.Millisecond)
				c.Beat()
			}
		}
		if !ok {
			l.fail("real-incomplete", "after the commands, %s does not complete: %q", hashes[i][:8], out)
			return
		}
		c.Obs("real downloads completed", 1)
	}
	a.check(l.kase, "after random commands")
	c.Eval(strings.Join(l.log, ";"))
	c.Sample("real history", l.log)
}

// get0 requests a file once.
func (l *lanLab) get0(i int, hash string) bool {
	var out string
	for try := 0; try < 5; try++ {
		var code int
		if out, code = l.hosts[i].cli("", "get", hash); code == 0 && out == "Flu transfer initiated\n" {
			return true
		}
	}
	l.fail("get", "host %d cannot request %s: %q", i, hash[:8], out)
	return false
}

// has reports whether a host lists a file completely and has it.
func (l *lanLab) has(h *Real, hash string, data []byte) bool {
	var res cli.ListResponse
	h.call("List", &cli.ListRequest{}, &res)
	for _, it := range res.Items {
		if Hash(it.Sha1Hash).String() == hash && it.ChunksDownloaded == it.ChunkCount {
			file, err := readReg(h.path(it.FilePath))
			return err == nil && bytes.Equal(file, data)
		}
	}
	return false
}
