package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/flu-network/client/cli"
)

func init() { register("C18", "exploration", c18) }

// span is one operation of one routine. Routines keep their own lists: a shared one would order their
// accesses and hide races.
type span struct {
	op         string
	start, end time.Time
}

// racer runs operations on a routine of its own.
type racer struct {
	spans []span
	until time.Time
}

func (w *racer) loop(r *rand.Rand, pause time.Duration, ops map[string]func()) {
	names := sortedKeys(ops)
	for time.Now().Before(w.until) {
		op := names[r.IntN(len(names))]
		start := time.Now()
		ops[op]()
		w.spans = append(w.spans, span{op, start, time.Now()})
		if pause > 0 {
			time.Sleep(time.Duration(r.Int64N(int64(pause))))
		}
	}
}

// overlaps counts which pairs of operations of different routines ran at the same time.
func overlaps(c *Ctx, workers []*racer, prefix string) {
	type ev struct {
		at   time.Time
		op   string
		w    int
		open bool
	}
	var evs []ev
	n := 0
	for i, w := range workers {
		for _, s := range w.spans {
			evs = append(evs, ev{s.start, s.op, i, true}, ev{s.end, s.op, i, false})
			n++
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at.Before(evs[j].at) })
	active := map[int]string{}
	for _, e := range evs {
		if !e.open {
			delete(active, e.w)
			continue
		}
		for _, o := range active {
			a, b := e.op, o
			if b < a {
				a, b = b, a
			}
			c.Eval(prefix + a + " | " + b)
		}
		active[e.w] = e.op
	}
	c.Obs("operations", n)
}

func c18(c *Ctx) {
	c.Rule(`Server, catalogue and CLI methods built with the race detector, used by many routines at once that share nothing but the code
		under test: uploads, datagrams of all kinds, downloads from scripted peers (requested repeatedly, unshared, requested
		again), discoveries, listings, and every catalogue and CLI operation, on the same few files. The same on real daemons
		built with the race detector, over their sockets. Oracle: the race detector's reports whose two accesses are the
		client's. An evaluation is a pair of operations that overlapped in time, distinct by the two operations.`)
	c.Assume("what executes is what is judged: the race detector reports only races of accesses that happened")
	var wg sync.WaitGroup
	labs := c.N(1, 3)
	for lab := 0; lab < labs; lab++ {
		wg.Add(1)
		go func() { defer wg.Done(); c18Real(c, lab) }()
	}
	for k := 0; k < c.N(2, 20); k++ {
		c18Mix(c, k)
	}
	wg.Wait()
}

func c18Mix(c *Ctx, k int) {
	base := c.Dir("race")
	defer c.rm(base)
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	r := c.Rng("mix", k)
	lan := newLAN(c)
	defer lan.close()
	h := newHostAs(c, st, 0, lan.port)
	defer h.close()
	lan.mu.Lock()
	lan.deliver = func(msg []byte) {
		// each on a routine of its own, as the daemon does
		go h.srv.HandleMessage(msg, h.conn, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: lan.port})
	}
	lan.mu.Unlock()
	m := cli.NewMethods(st.Cat, h.srv)
	// files to upload
	var ups []*chunkFile
	for i := 0; i < 4; i++ {
		f := &chunkFile{data: randBytes(r, 3000+r.IntN(20000)), chunk: 1000 + r.IntN(4000)}
		f.hash = sum(f.data)
		for x := 0; x < f.count(); x++ {
			f.have = append(f.have, x)
		}
		f.path, err = st.seed(f.data, f.chunk, fmt.Sprintf("up%d", i), nil)
		must(err)
		ups = append(ups, f)
	}
	// files to download
	var downs []*chunkFile
	var peers []*Peer
	var addrs []*net.UDPAddr
	for i := 0; i < 4; i++ {
		chunk := 1100 + r.IntN(1000)
		f := &chunkFile{data: randBytes(r, 2*chunk-r.IntN(900)), chunk: chunk}
		f.hash = sum(f.data)
		p := newPeer(ip127(40*k + i))
		p.serve(f.hash, f.data, f.chunk, fmt.Sprintf("down%d", i))
		peers, downs, addrs = append(peers, p), append(downs, f), append(addrs, p.sock.addr)
	}
	// what arrives of these cannot be saved
	var unsaved []*chunkFile
	readonly := filepath.Join(base, "readonly")
	must(os.MkdirAll(readonly, 0755))
	for i := 4; i < 12; i++ {
		f := &chunkFile{data: randBytes(r, 10), chunk: 10}
		f.hash = sum(f.data)
		rec, err := st.Cat.RegisterDownload(10, 1, 10, sha(f.hash), fmt.Sprintf("down%d", i))
		must(err)
		full := filepath.Join(readonly, fmt.Sprint(i))
		write(full, nil)
		must(os.MkdirAll(filepath.Dir(rec.FilePath), 0755))
		must(os.Symlink(full, rec.FilePath))
		p := newPeer(ip127(40000 + 40*k + i))
		p.serve(f.hash, f.data, f.chunk, "unsaved")
		peers, downs, addrs = append(peers, p), append(downs, f), append(addrs, p.sock.addr)
		unsaved = append(unsaved, f)
	}
	downs = downs[:4]
	must(sh("mount --bind %s %s", readonly, readonly))
	defer sh("umount %s", readonly)
	must(sh("mount -o remount,bind,ro %s", readonly))
	lan.only = func(peer *net.UDPAddr, hash Hash) bool {
		downs := append(downs[:4:4], unsaved...)
		for i := range downs {
			if peer == addrs[i] {
				return downs[i].hash == hash
			}
		}
		return false
	}
	lan.set(addrs...)
	defer func() {
		for _, p := range peers {
			p.close()
		}
	}()
	// a download that is saved to directly
	part := &chunkFile{data: randBytes(r, 50000), chunk: 100}
	part.hash = sum(part.data)
	_, err = st.seed(part.data, part.chunk, "part", []int{0})
	must(err)
	userDir := filepath.Join(base, "user")
	must(os.MkdirAll(userDir, 0755))
	for i := 0; i < 6; i++ {
		write(filepath.Join(userDir, fmt.Sprintf("f%d", i)), randBytes(r, 100*i))
	}

	var workers []*racer
	var wg sync.WaitGroup
	until := time.Now().Add(time.Duration(c.N(14, 25)) * time.Second)
	spawn := func(n int, pause time.Duration, ops func(r *rand.Rand) map[string]func()) {
		for i := 0; i < n; i++ {
			w := &racer{until: until}
			workers = append(workers, w)
			wr := c.Rng("worker", k*1000+len(workers))
			wg.Add(1)
			go func() { defer wg.Done(); w.loop(wr, pause, ops(wr)) }()
		}
	}
	blank := func() *cli.ListRequest { return &cli.ListRequest{} }
	// uploads
	spawn(5, 5*time.Millisecond, func(r *rand.Rand) map[string]func() {
		s := newSock(ip127(40*k+10+r.IntN(5)), 0)
		return map[string]func(){
			"upload": func() {
				f := ups[r.IntN(len(ups))]
				s.send(h.addr, encOpen(f.hash, uint16(r.IntN(f.count())), uint16(r.IntN(6))))
				for i := r.IntN(30); i > 0; i-- {
					p, ok := s.next(30 * time.Millisecond)
					if !ok {
						break
					}
					off, _, _ := wData(p.data)
					s.send(h.addr, encAck(off))
					if r.IntN(6) == 0 {
						s.send(h.addr, encAck(off))
					}
				}
			},
		}
	})
	// datagrams, some from the same addresses
	spawn(4, 2*time.Millisecond, func(r *rand.Rand) map[string]func() {
		g := &noise{r: r, files: ups, ids: func() uint16 { return uint16(r.IntN(100)) }}
		from := func() *net.UDPAddr {
			return &net.UDPAddr{IP: net.ParseIP(ip127(40*k + 20 + r.IntN(3))).To4(), Port: 2000 + r.IntN(6)}
		}
		op := func(b func() []byte) func() { return func() { h.handle(b(), from()) } }
		up := func() *chunkFile { return ups[r.IntN(len(ups))] }
		return map[string]func(){
			"datagram":  op(g.next),
			"open":      op(func() []byte { f := up(); return encOpen(f.hash, uint16(r.IntN(f.count())), uint16(r.IntN(20))) }),
			"ack":       op(func() []byte { return encAck(0) }),
			"discovery": op(func() []byte { return encDiscReq(1, part.hash, []uint16{0, 400}) }),
			"discovery2": op(func() []byte {
				return encDiscReq(1, downs[r.IntN(4)].hash, nil)
			}),
			"list":  op(func() []byte { return encListReq(1, part.hash) }),
			"lists": op(func() []byte { return encListReq(1, blankHash) }),
			"reply": op(func() []byte { return encDiscResp(uint16(r.IntN(100)), [4]byte{127, 0, 0, 9}, 9, nil) }),
		}
	})
	for _, f := range unsaved {
		wg.Add(1)
		go func() { defer wg.Done(); m.Get(&cli.GetRequest{Sha1Hash: sha(f.hash)}, &cli.GetResponse{}) }()
	}
	// remote listings, one after the other
	spawn(3, 2*time.Millisecond, func(r *rand.Rand) map[string]func() {
		return map[string]func(){"remote lists": func() {
			a := addrs[r.IntN(len(addrs))]
			h.srv.ListFilesOnHost([4]byte(a.IP.To4()), uint16(a.Port), sha(blankHash))
		}}
	})
	// the CLI and downloads
	spawn(6, 50*time.Millisecond, func(r *rand.Rand) map[string]func() {
		down := func() *chunkFile { return downs[r.IntN(len(downs))] }
		return map[string]func(){
			"get":   func() { m.Get(&cli.GetRequest{Sha1Hash: sha(down().hash)}, &cli.GetResponse{}) },
			"get2":  func() { m.Get(&cli.GetRequest{Sha1Hash: sha(down().hash)}, &cli.GetResponse{}) },
			"list":  func() { var l cli.ListResponse; m.List(blank(), &l); _ = l.Sprintf() },
			"clean": func() { m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) },
			"share": func() {
				m.Share(&cli.ShareRequest{Filepath: filepath.Join(userDir, fmt.Sprintf("f%d", r.IntN(6)))}, &cli.ListItem{})
			},
			"chims":  func() { m.Chims(&cli.ChimRequest{Sha1Hash: sha(down().hash)}, &cli.ChimResponseList{}) },
			"remove": func() { st.Cat.UnshareFile(sha(downs[r.IntN(4)].hash)) },
			"remote list": func() {
				a := addrs[r.IntN(len(addrs))]
				h.srv.ListFilesOnHost([4]byte(a.IP.To4()), uint16(a.Port), sha(blankHash))
			},
		}
	})
	// the catalogue
	spawn(5, time.Millisecond, func(r *rand.Rand) map[string]func() {
		any := func() Hash {
			switch r.IntN(4) {
			case 0:
				return downs[r.IntN(len(downs))].hash
			case 1:
				return ups[r.IntN(len(ups))].hash
			}
			return part.hash
		}
		return map[string]func(){
			"SaveChunk": func() {
				i := r.IntN(part.count())
				st.Cat.SaveChunk(sha(part.hash), uint16(i), chunkOf(part.data, part.chunk, i))
			},
			"Contains": func() {
				if rec, err := st.Cat.Contains(sha(any())); err == nil {
					rec.Progress.Ranges()
					rec.Progress.Overlap([]uint16{0, 100})
					_ = viewOf(rec)
				}
			},
			"ListFiles": func() {
				files, _ := st.Cat.ListFiles()
				for i := range files {
					_ = viewOf(&files[i])
				}
			},
			"FileComplete":  func() { st.Cat.FileComplete(sha(any())) },
			"MissingChunks": func() { st.Cat.MissingChunks(sha(any()), 1) },
			"Rehash":        func() { st.Cat.Rehash(sha(any())) },
			"GetChunkReader": func() {
				if rd, err := st.Cat.GetChunkReader(sha(any()), int64(r.IntN(3))); err == nil {
					rd.Read(make([]byte, 100))
					rd.Close()
				}
			},
			"Unshare": func() {
				data, _ := readReg(filepath.Join(userDir, fmt.Sprintf("f%d", r.IntN(6))))
				st.Cat.UnshareFile(sha(sum(data)))
			},
			"Register": func() {
				x := randHash(r)
				st.Cat.RegisterDownload(1000, 10, 100, sha(x), "registered")
				st.Cat.UnshareFile(sha(x))
			},
		}
	})
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-time.After(time.Second):
			if time.Now().Before(until.Add(20 * time.Second)) {
				c.Beat() // afterwards the watchdog takes over
			}
		}
	}
	// let the downloads end
	lan.set()
	for _, f := range append(downs[:4:4], unsaved...) {
		st.Cat.UnshareFile(sha(f.hash))
	}
	overlaps(c, workers, "")
	got := 0
	for _, p := range peers {
		got += len(p.requested())
	}
	c.Obs("chunks requested from peers", got)
	for _, p := range peers[4:] {
		c.Obs("chunks requested that cannot be saved", len(p.requested()))
	}
	c.Obs("datagrams handled", int(h.handled.Load()))
}

// c18Real uses a real daemon that was built with the race detector.
func c18Real(c *Ctx, lab int) {
	r := c.Rng("real", lab)
	h := newReal(c, lab, 2)
	defer c.rm(h.dir)
	defer h.close()
	kase := map[string]any{"real daemon": lab}
	var ups []*chunkFile
	var seeds []seedFile
	for i := 0; i < 3; i++ {
		f := &chunkFile{data: randBytes(r, 20000), chunk: 3000}
		f.hash = sum(f.data)
		s := seedFile{Data: f.data, Chunk: f.chunk, Name: fmt.Sprintf("up%d", i), Have: []int{}}
		for x := 0; x < f.count(); x++ {
			s.Have = append(s.Have, x)
		}
		ups, seeds = append(ups, f), append(seeds, s)
	}
	h.seed(seeds)
	work := filepath.Join(h.dir, "work")
	for i := 0; i < 6; i++ {
		write(filepath.Join(work, fmt.Sprintf("f%d", i)), randBytes(r, 3000*i))
	}
	if !h.start() {
		c.Fail("start", kase, "the daemon does not start: %s", h.crash())
		return
	}
	peer := newPeerOn(onBridge(lab))
	defer peer.close()
	var downs []*chunkFile
	for i := 0; i < 4; i++ {
		f := &chunkFile{data: randBytes(r, 3000), chunk: 1300 + i}
		f.hash = sum(f.data)
		downs = append(downs, f)
	}
	// one host that has them all
	byHash := map[Hash]*chunkFile{}
	for _, f := range downs {
		byHash[f.hash] = f
	}
	peer.onDisc = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if byHash[m.Hash] != nil {
			p.sock.send(h.addr(), encDiscResp(m.ReqID, [4]byte(net.ParseIP(bridgeIP(lab)).To4()), daemonPort, []uint16{0, 2}))
		}
	}
	peer.onList = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if f := byHash[m.Hash]; f != nil {
			n := uint32(f.count())
			p.sock.send(from, encListResp(m.ReqID, []wFile{{Size: uint64(len(f.data)), Count: n, ChunkSize: uint32(f.chunk), Downloaded: n, Hash: f.hash, Name: "down"}}))
		}
	}
	rest := map[string][][]byte{}
	peer.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if f := byHash[m.Hash]; f != nil {
			pk := chunkPackets(chunkOf(f.data, f.chunk, int(m.Chunk)))
			rest[from.String()] = pk[1:]
			p.sock.send(from, pk[0])
		}
	}
	peer.onAck = func(p *Peer, from *net.UDPAddr, m wMsg) {
		for _, b := range rest[from.String()] {
			p.sock.send(from, b)
		}
		delete(rest, from.String())
	}
	until := time.Now().Add(time.Duration(c.N(30, 300)) * time.Second)
	var workers []*racer
	var wg sync.WaitGroup
	spawn := func(n int, pause time.Duration, ops func(r *rand.Rand) map[string]func()) {
		for i := 0; i < n; i++ {
			w := &racer{until: until}
			workers = append(workers, w)
			wr := c.Rng("real worker", lab*1000+len(workers))
			wg.Add(1)
			go func() { defer wg.Done(); w.loop(wr, pause, ops(wr)) }()
		}
	}
	spawn(8, 60*time.Millisecond, func(r *rand.Rand) map[string]func() {
		var cl *rpc.Client
		call := func(method string, req, res any) {
			if cl == nil {
				cl, _ = rpc.Dial("unix", h.sock())
			}
			if cl == nil {
				time.Sleep(100 * time.Millisecond)
				return
			}
			x := cl.Go("Methods."+method, req, res, make(chan *rpc.Call, 1))
			select {
			case <-x.Done:
			case <-time.After(20 * time.Second):
			}
			if r.IntN(10) == 0 {
				cl.Close()
				cl = nil
			}
		}
		hash := func() Hash { return downs[r.IntN(len(downs))].hash }
		return map[string]func(){
			"get":   func() { call("Get", &cli.GetRequest{Sha1Hash: sha(hash())}, &cli.GetResponse{}) },
			"list":  func() { call("List", &cli.ListRequest{}, &cli.ListResponse{}) },
			"clean": func() { call("Clean", &cli.CleanRequest{}, &cli.CleanResponse{}) },
			"share": func() {
				call("Share", &cli.ShareRequest{Filepath: fmt.Sprintf("%s/work/f%d", h.inner, r.IntN(6))}, &cli.ListItem{})
			},
			"chims": func() { call("Chims", &cli.ChimRequest{Sha1Hash: sha(hash())}, &cli.ChimResponseList{}) },
			"remote list": func() {
				call("List", &cli.ListRequest{IP: net.ParseIP(bridgeIP(lab)), Sha1Hash: sha(hash())}, &cli.ListResponse{})
			},
			"remove": func() {
				des, _ := os.ReadDir(h.down())
				for _, de := range des {
					if strings.HasPrefix(de.Name(), "down") && r.IntN(2) == 0 {
						os.Remove(filepath.Join(h.down(), de.Name()))
					}
				}
				call("Clean", &cli.CleanRequest{}, &cli.CleanResponse{})
			},
			"change": func() {
				os.WriteFile(filepath.Join(work, fmt.Sprintf("f%d", r.IntN(6))), randBytes(r, 100), 0644)
				call("Clean", &cli.CleanRequest{}, &cli.CleanResponse{})
			},
		}
	})
	spawn(6, 5*time.Millisecond, func(r *rand.Rand) map[string]func() {
		s := newSock(bridgeIP(lab), 0)
		g := &noise{r: r, files: ups, ids: func() uint16 { return uint16(r.IntN(100)) }}
		return map[string]func(){
			"upload": func() {
				f := ups[r.IntN(len(ups))]
				s.send(h.addr(), encOpen(f.hash, uint16(r.IntN(f.count())), uint16(r.IntN(6))))
				for i := r.IntN(30); i > 0; i-- {
					p, ok := s.next(30 * time.Millisecond)
					if !ok {
						break
					}
					off, _, _ := wData(p.data)
					s.send(h.addr(), encAck(off))
					if r.IntN(6) == 0 {
						s.send(h.addr(), encAck(off))
					}
				}
			},
			"noise": func() {
				for i := 0; i < 20; i++ {
					s.send(h.addr(), g.next())
				}
			},
			"discovery": func() { s.send(h.addr(), encDiscReq(1, downs[r.IntN(4)].hash, []uint16{0, 1})) },
			"lists":     func() { s.send(h.addr(), encListReq(1, blankHash)) },
		}
	})
	// Datagrams that arrive together are handled at the same time: what one asks for may not show in the
	// answer to another. (The race detector does not see the kernel write into a buffer that is still read.)
	spawn(2, 3*time.Millisecond, func(r *rand.Rand) map[string]func() {
		s := newSock(bridgeIP(lab), 0)
		next := uint16(r.IntN(1 << 16))
		return map[string]func(){"burst": func() {
			asked, answers := map[uint16]*chunkFile{}, map[uint16]int{}
			n := 10 + r.IntN(50)
			for i := 0; i < n; i++ {
				next++
				var f *chunkFile
				hash := Hash(randBytes(r, 20))
				if r.IntN(2) == 0 {
					f = ups[r.IntN(len(ups))]
					hash = f.hash
				}
				asked[next] = f
				s.send(h.addr(), encListReq(next, hash))
			}
			for {
				p, ok := s.next(100 * time.Millisecond)
				if !ok {
					break
				}
				m, err := wParse(p.data)
				if err != nil || m.Type != tListResp {
					continue
				}
				f, known := asked[m.ReqID]
				if !known {
					if m.ReqID-next+1000 < 1000 {
						continue // a late reply to an earlier burst
					}
					c.Fail("mixed-up", kase, "of %d requests sent together, a reply has request ID %d, which none has", n, m.ReqID)
					return
				}
				if answers[m.ReqID]++; answers[m.ReqID] > 1 {
					c.Fail("mixed-up", kase, "of %d requests sent together, the one with ID %d is answered twice", n, m.ReqID)
					return
				}
				if f == nil && len(m.Files) > 0 {
					c.Fail("mixed-up", kase, "of %d requests sent together, one for a file that is not there is answered with another's file", n)
					return
				}
				if f != nil && (len(m.Files) != 1 || m.Files[0].Hash != f.hash) {
					c.Fail("mixed-up", kase, "of %d requests sent together, one for %s is answered with %+v", n, f.hash, m.Files)
					return
				}
				c.Obs("answers to requests sent together", 1)
			}
		}}
	})
	wg.Wait()
	overlaps(c, workers, "daemon: ")
	c.Obs("chunks requested by the real daemon", len(peer.requested()))
	if !h.check(kase, "under load") {
		return
	}
	if out, code := h.cli("", "list"); code != 0 {
		c.Fail("list", kase, "after the load, list ends with %d: %q", code, out)
	}
}
