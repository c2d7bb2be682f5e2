package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flu-network/client/cli"
)

func init() { register("C04", "exploration", c04) }

// noise generates datagrams of all kinds, for a host that has the given files.
type noise struct {
	r     *rand.Rand
	files []*chunkFile
	ids   func() uint16 // request IDs that are in use
	last  []byte
}

func (g *noise) hash() Hash {
	if len(g.files) > 0 && g.r.IntN(3) > 0 {
		return g.files[g.r.IntN(len(g.files))].hash
	}
	return randHash(g.r)
}

func (g *noise) next() []byte {
	r := g.r
	id := g.ids()
	var b []byte
	switch r.IntN(12) {
	case 0, 1:
		chunk := []uint16{0, 1, 2, 3, 65535, uint16(r.IntN(8)), uint16(r.IntN(65536))}[r.IntN(7)]
		b = encOpen(g.hash(), chunk, []uint16{0, 1, 2, 1023, 1024, 65534, 65535, uint16(r.Uint32())}[r.IntN(8)])
		if r.IntN(3) == 0 {
			b = b[:25]
		}
	case 2, 3, 4:
		b = encAck([]uint32{0, 1, 1000, 1024, 1<<32 - 1, r.Uint32()}[r.IntN(6)])
	case 5:
		b = encDiscResp(id, [4]byte(be32(r.Uint32())), randU16(r), randChunks(r, r.IntN(256)))
	case 6:
		chunks := randChunks(r, []int{0, 1, 2, 3, 4, 254, 255, r.IntN(256)}[r.IntN(8)])
		if r.IntN(2) == 0 { // ranges up to and over every edge
			edge := func() uint16 {
				return []uint16{0, 1, 2, 5, 63, 64, 255, 256, 1023, 32767, 32768, 65534, 65535, uint16(r.IntN(12)), randU16(r)}[r.IntN(15)]
			}
			for i := range chunks {
				chunks[i] = edge()
			}
			if r.IntN(2) == 0 {
				slices.Sort(chunks)
			}
		}
		b = encDiscReq(id, g.hash(), chunks)
	case 7:
		b = encListReq(id, g.hash())
	case 8:
		b = encListResp(id, []wFile{{Size: randU64(r), Count: randU32(r), ChunkSize: randU32(r), Hash: g.hash(), Name: randName(r, r.IntN(256))}})
	case 9:
		b = encData(randU32(r), randBytes(r, r.IntN(1100)))
	case 10:
		b = wireOf(randMessage(r))
	case 11:
		b = randBytes(r, []int{0, 1, 2, 5, 23, 24, 25, 26, 32, 1024, r.IntN(1025)}[r.IntN(11)])
		if len(b) > 0 && r.IntN(2) == 0 {
			b[0] = byte(r.IntN(9))
		}
	}
	if r.IntN(3) == 0 && len(b) > 0 { // damage it
		b = append([]byte{}, b...)
		switch r.IntN(5) {
		case 0:
			b = b[:r.IntN(len(b))]
		case 1:
			b = append(b, randBytes(r, r.IntN(40))...)
		case 2:
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		case 3:
			b[r.IntN(min(len(b), 32))] = byte(r.Uint32())
		case 4:
			k := r.IntN(len(g.last) + 1)
			b = append(b[:r.IntN(len(b))], g.last[k:]...)
		}
	}
	// IDs with the highest bit are for the probes
	if len(b) > 1 && (b[0] == tDiscReq || b[0] == tListReq) {
		b[1] &= 0x7f
	}
	g.last = b
	return b
}

// prober asks a host well-formed questions and compares the answers.
type prober struct {
	c     *Ctx
	kase  any
	r     *rand.Rand
	ip    string // to ask from
	disc  *sock  // where replies to discovery requests arrive
	to    *net.UDPAddr
	addr  [4]byte // the address it announces
	port  uint16
	files []*chunkFile
	names map[Hash]string
	id    uint16
}

func (p *prober) newID() uint16 {
	p.id++
	return p.id | 0x8000
}

// all asks everything. It returns false if an answer was missing or wrong.
func (p *prober) all(when string) bool {
	ok := true
	for i := 0; i < 3 && ok; i++ {
		f := p.files[p.r.IntN(len(p.files))]
		ok = p.discovery(when, f) && p.list(when, f) && p.transfer(when, f)
	}
	return ok && p.discovery(when, nil) && p.list(when, nil)
}

func ranges(have []int) []uint16 {
	var l []uint16
	have = slices.Sorted(slices.Values(have))
	for i := 0; i < len(have); i++ {
		j := i
		for j+1 < len(have) && have[j+1] == have[j]+1 {
			j++
		}
		l = append(l, uint16(have[i]), uint16(have[j]))
		i = j
	}
	return l
}

func (p *prober) discovery(when string, f *chunkFile) bool {
	hash, want := blankHash, []uint16(nil)
	if f != nil {
		hash, want = f.hash, ranges(f.have)
	}
	id := p.newID()
	s := newSock(p.ip, 0)
	defer s.close()
	for try := 0; try < 20; try++ {
		p.c.Beat()
		s.send(p.to, encDiscReq(id, hash, nil))
		for end := time.Now().Add(time.Second); ; {
			k, ok := p.disc.next(time.Until(end))
			if !ok {
				break
			}
			m, err := wParse(k.data)
			if err != nil || m.Type != tDiscResp || m.ReqID != id {
				continue
			}
			if m.Addr != p.addr || m.Port != p.port || fmt.Sprint(m.Chunks) != fmt.Sprint(want) {
				p.c.Fail("probe-discovery", p.kase, "%s, a discovery of %v is answered with %v:%d and chunks %v, want %v:%d and %v", when, hash, m.Addr, m.Port, m.Chunks, p.addr, p.port, want)
				return false
			}
			p.c.Obs("discovery requests answered correctly afterwards", 1)
			return true
		}
	}
	p.c.Fail("probe-discovery", p.kase, "%s, 20 discovery requests for %v got no answer", when, hash)
	return false
}

func (p *prober) list(when string, f *chunkFile) bool {
	hash := blankHash
	var want []string
	for _, x := range p.files {
		if f == nil || x == f {
			w := wFile{Size: uint64(len(x.data)), Count: uint32(x.count()), ChunkSize: uint32(x.chunk), Downloaded: uint32(len(x.have)), Hash: x.hash, Name: p.names[x.hash]}
			want = append(want, entriesOf([]wFile{w})...)
		}
	}
	want = sortedStrings(want)
	if f != nil {
		hash = f.hash
	}
	id := p.newID()
	s := newSock(p.ip, 0)
	defer s.close()
	for try := 0; try < 20; try++ {
		p.c.Beat()
		s.send(p.to, encListReq(id, hash))
		for end := time.Now().Add(time.Second); ; {
			k, ok := s.next(time.Until(end))
			if !ok {
				break
			}
			m, err := wParse(k.data)
			if err != nil || m.Type != tListResp || m.ReqID != id {
				p.c.Fail("probe-list", p.kase, "%s, a file-list request is answered with %s", when, clip(k.data, 60))
				return false
			}
			if d := sameStrings(entriesOf(m.Files), want); d != "" {
				p.c.Fail("probe-list", p.kase, "%s, the list for %v is wrong: %s", when, hash, d)
				return false
			}
			p.c.Obs("list requests answered correctly afterwards", 1)
			return true
		}
	}
	p.c.Fail("probe-list", p.kase, "%s, 20 file-list requests got no answer", when)
	return false
}

func (p *prober) transfer(when string, f *chunkFile) bool {
	if len(f.have) == 0 {
		return true
	}
	answered := false
	for try := 0; try < 6 || (try < 20 && !answered); try++ {
		s := newSock(p.ip, 0)
		i := f.have[p.r.IntN(len(f.have))]
		want := chunkOf(f.data, f.chunk, i)
		x := &xfer{c: p.c, r: p.r, peer: s, to: p.to, hash: f.hash, index: i, want: want, cap: 1 + p.r.IntN(40), pol: ackEach, again: try < 2}
		ok := x.run()
		s.close()
		answered = answered || x.recv > 0
		if x.failed {
			return false // reported
		}
		if ok {
			p.c.Obs("transfers completed correctly afterwards", 1)
			return true
		}
	}
	if !answered {
		p.c.Fail("probe-transfer", p.kase, "%s, 20 requests for a chunk of %v got no answer", when, f.hash)
		return false
	}
	p.c.Obs("transfers without a verdict", 1)
	return true
}

func sortedStrings(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return sortedKeys(m)
}

func baseNames(files []*chunkFile) map[Hash]string {
	m := map[Hash]string{}
	for _, f := range files {
		m[f.hash] = filepath.Base(f.path)
	}
	return m
}

func c04(c *Ctx) {
	c.Rule(`Floods of generated datagrams (well-formed messages of all types with known and unknown hashes, edge windows and
		indices, unsolicited replies under request IDs that are in use, acks, damaged and spliced messages, garbage, all lengths)
		from many addresses and ports at once, into the message handler directly and through its UDP loop, while it discovers,
		lists and downloads from other hosts, for listings that fit no datagram, and thousands of the same request from the same address, and into real daemons, one of them short of file descriptors. Monitors: no panic, every call
		returns, nothing stays stuck, catalogue and files are unchanged, and afterwards discovery, list and transfer requests
		are answered correctly. Distinct by datagram.`)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); c04Real(c, 0, nil) }()
	go func() { defer wg.Done(); c04Real(c, 1, []string{"prlimit", "--nofile=100"}) }()
	rounds := c.N(4, 60)
	for k := 0; k < rounds && c.Failed() == 0; k++ {
		c04Round(c, k)
	}
	for k := 0; k < c.N(2, 10) && c.Failed() == 0; k++ {
		c04Long(c, k)
	}
	wg.Wait()
}

// c04Long asks for a listing that fits no datagram.
func c04Long(c *Ctx, k int) {
	r := c.Rng("long", k)
	base := c.Dir("c04-")
	defer c.rm(base)
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	var files []*chunkFile
	for i := 0; i < 225+r.IntN(60); i++ {
		f := &chunkFile{data: randBytes(r, 30+i), chunk: 10}
		f.hash = sum(f.data)
		for x := 0; x < chunkCount(int64(len(f.data)), 10) && i%20 == 0; x++ {
			f.have = append(f.have, x)
		}
		if f.have == nil {
			f.have = []int{}
		}
		if f.path, err = st.seed(f.data, f.chunk, fmt.Sprintf("%03d%s", i, strings.Repeat("n", 252)), f.have); err != nil {
			c.Fail("seed", k, "%v", err)
			return
		}
		files = append(files, f)
	}
	disc := newSock("0.0.0.0", 0)
	defer disc.close()
	h := newHostAs(c, st, 0, disc.addr.Port)
	defer h.close()
	kase := map[string]any{"long listing": k, "files": len(files)}
	s := newSock(ip127(98000+k), 0)
	defer s.close()
	for i := 0; i < 60; i++ {
		s.send(h.addr, encListReq(uint16(i), blankHash))
		c.Await("handle", kase, func() {
			c.Guard("panic", kase, func() { h.handle(encListReq(uint16(i), blankHash), s.addr) })
		})
	}
	got := 0
	for {
		p, ok := s.next(300 * time.Millisecond)
		if !ok {
			break
		}
		if m, err := wParse(p.data); err == nil && m.Type == tListResp {
			got++
		}
	}
	c.Obs("requests for a listing that fits no datagram", 120)
	c.Obs("replies to them", got)
	p := &prober{c: c, kase: kase, r: r, ip: ip127(98500 + k), disc: disc, to: h.addr, addr: [4]byte{10, 77, 0, 1}, port: uint16(disc.addr.Port), files: files, names: baseNames(files)}
	for i := 0; i < 3; i++ {
		f := files[20*r.IntN(len(files)/20)]
		if !p.discovery("after a listing that fits no datagram", f) || !p.list("after a listing that fits no datagram", f) || !p.transfer("after a listing that fits no datagram", f) {
			break
		}
	}
	c.Eval(fmt.Sprint("long ", len(files)))
}

func c04Round(c *Ctx, k int) {
	r := c.Rng("round", k)
	base := c.Dir("c04-")
	defer c.rm(base)
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	files := uploadFiles(c, st, r, 5, false)
	files = append(files[:0:0], files[len(files)-12:]...) // the rest is noise as well, but too much to list
	all, err := listing(st.Cat)
	if err != nil {
		c.Fail("listing", k, "%v", err)
		return
	}
	for h := range all {
		known := false
		for _, f := range files {
			known = known || f.hash.String() == h
		}
		if !known {
			st.Cat.UnshareFile(hashOf(h))
		}
	}
	none := &chunkFile{data: randBytes(r, 5000), chunk: 50, have: []int{}} // nothing of it is there yet
	none.hash = sum(none.data)
	none.path, err = st.seed(none.data, none.chunk, "none.bin", none.have)
	must(err)
	files = append(files, none)
	all, err = listing(st.Cat)
	if err != nil {
		c.Fail("listing", k, "%v", err)
		return
	}
	before := tree(base, treeContent|treeTimes)
	disc := newSock("0.0.0.0", 0)
	defer disc.close()
	h := newHostAs(c, st, 0, disc.addr.Port)
	defer h.close()
	kase := map[string]any{"round": k}

	stop := make(chan struct{})
	var wg sync.WaitGroup
	var discoveries atomic.Int64
	// the host has requests of its own running
	garbage := newSock(ip127(90000+k), 0)
	defer garbage.close()
	gr := c.Rng("garbage", k)
	g := &noise{r: gr, files: files, ids: func() uint16 { return uint16(gr.IntN(50)) }}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			if p, ok := garbage.next(100 * time.Millisecond); ok {
				garbage.send(p.from, g.next())
			}
		}
	}()
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				c.Await("own-request", kase, func() {
					if i%2 == 0 {
						h.srv.DiscoverHosts(sha(files[i].hash), nil)
						discoveries.Add(1)
					} else {
						h.srv.ListFilesOnHost([4]byte(garbage.addr.IP.To4()), uint16(garbage.addr.Port), sha(blankHash))
						time.Sleep(10 * time.Millisecond)
					}
				})
			}
		}()
	}
	// and so has a download, whose hosts say anything
	dr := c.Rng("download", k)
	dg := &noise{r: dr, files: files, ids: func() uint16 { return uint16(dr.IntN(60)) }}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			p, ok := disc.next(100 * time.Millisecond)
			if !ok {
				continue
			}
			if m, err := wParse(p.data); err == nil && m.Type == tDiscReq {
				for i := 0; i < 1+dr.IntN(3); i++ {
					b := encDiscResp(m.ReqID, [4]byte(garbage.addr.IP.To4()), uint16(garbage.addr.Port), randChunks(dr, dr.IntN(1+dr.IntN(6))))
					c.Guard("panic", kase, func() { h.handle(b, garbage.addr) })
					c.Obs("replies to the discoveries of a download", 1)
				}
				if dr.IntN(4) == 0 {
					b := dg.next()
					c.Guard("panic", kase, func() { h.handle(b, garbage.addr) })
				}
			}
		}
	}()
	if !c.Await("download", kase, func() {
		if err := h.srv.StartDownload(sha(none.hash)); err != nil {
			c.Obs("downloads that could not be requested during the flood", 1)
		}
	}) {
		return
	}
	defer st.Cat.UnshareFile(sha(none.hash)) // ends it
	attackers := 24
	perAttacker := c.N(1500, 3000)
	sockets := []*sock{}
	for i := 0; i < 8; i++ {
		sockets = append(sockets, newSock(ip127(91000+k*20+i), 0))
	}
	if conn, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback}); err == nil {
		sockets = append(sockets, newSockOn(conn))
	}
	var aw sync.WaitGroup
	for i := 0; i < attackers; i++ {
		aw.Add(1)
		go func() {
			defer aw.Done()
			ar := c.Rng("attacker", k*1000+i)
			g := &noise{r: ar, files: files, ids: func() uint16 {
				if ar.IntN(2) == 0 {
					return uint16(ar.IntN(60)) // those of the requests that run
				}
				return uint16(ar.Uint32())
			}}
			from := func() *net.UDPAddr {
				a := &net.UDPAddr{IP: net.ParseIP(ip127(92000 + ar.IntN(40))).To4(), Port: 1024 + ar.IntN(60)}
				switch ar.IntN(20) {
				case 0:
					a.Port = 0
				case 1:
					a.IP = net.ParseIP("255.255.255.255").To4()
				case 2:
					a.IP = net.ParseIP("fe80::1")
				case 3:
					a.IP = net.IPv6loopback
				case 4:
					a.IP = net.ParseIP(ip127(92000 + ar.IntN(40))).To16()
				case 5:
					a.IP = net.IPv4zero.To4()
				case 6:
					a.IP, a.Port = net.ParseIP("224.0.0.1").To4(), 65535
				case 7:
					a.Port = 1 + ar.IntN(65535)
				case 8:
					a.IP = net.ParseIP("10.77.0.1").To4()
				}
				return a
			}
			if i < len(sockets) { // over the network
				s := sockets[i]
				to := h.addr
				if s.addr.IP.To4() == nil {
					to = &net.UDPAddr{IP: net.IPv6loopback, Port: h.addr.Port}
				}
				for n := 0; n < perAttacker; n++ {
					b := g.next()
					for x := 0; x < 1+ar.IntN(3)*ar.IntN(2); x++ {
						s.send(to, b)
					}
					if n%20 == 0 {
						time.Sleep(time.Millisecond)
						c.Beat()
					}
					c.Eval(string(b))
				}
				c.Obs("datagrams over the network", perAttacker)
				return
			}
			for n := 0; n < perAttacker; n += 50 {
				var sent [][]byte
				ok := c.Await("handle", kase, func() {
					a := from()
					for x := 0; x < 50; x++ {
						b := g.next()
						if ar.IntN(3) > 0 {
							a = from()
						}
						sent = append(sent, b)
						kase := map[string]any{"round": k, "datagram": fmt.Sprintf("%x", b), "from": a.String()}
						c.Guard("panic", kase, func() { h.handle(b, a) })
					}
				})
				for _, b := range sent {
					c.Eval(string(b))
				}
				c.Obs("datagrams handled directly", len(sent))
				if !ok || c.Failed() > 5 {
					return
				}
			}
		}()
	}
	aw.Wait()
	close(stop)
	wg.Wait()
	if k%4 == 0 && c.Failed() == 0 {
		c04Wear(c, h, files, kase, k)
	}
	for _, s := range sockets {
		s.close()
	}
	c.Obs("own discoveries during the flood", int(discoveries.Load()))
	c.Obs("datagrams refused with an error", int(h.errors.Load()))
	c.Sample("round", map[string]any{"attackers": attackers, "each": perAttacker, "files": len(files)})
	if c.Failed() > 0 {
		return
	}
	var stuck string
	if !c.WaitFor(hangTimeout, func() bool {
		stuck = ""
		for _, g := range clientGoroutines() {
			if strings.Contains(g, "HandleMessage") {
				stuck = g
			}
		}
		return stuck == ""
	}) {
		c.fail(Violation{Sig: "stuck", What: "the handler of a datagram has not returned after " + hangTimeout.String(), Case: kase, Detail: stuck})
	}
	p := &prober{c: c, kase: kase, r: r, ip: ip127(95000 + k), disc: disc, to: h.addr, addr: [4]byte{10, 77, 0, 1}, port: uint16(disc.addr.Port), files: files, names: baseNames(files)}
	p.all("after a flood")
	after, err := listing(st.Cat)
	if err != nil {
		c.Fail("listing", kase, "%v", err)
	} else if d := after.diff(all); d != "" {
		c.Fail("catalogue", kase, "the flood changed the catalogue: %s", d)
	}
	if d := tree(base, treeContent|treeTimes).diff(before); len(d) > 0 {
		c.Fail("files", kase, "the flood changed files: %v", d)
	}
}

// c04Wear repeats well-formed requests from the same addresses very often.
func c04Wear(c *Ctx, h *Host, files []*chunkFile, kase map[string]any, k int) {
	for pass := 0; pass < 3 && c.Failed() == 0; pass++ {
		for i := 0; i < 7*pass; i++ { // what is still open is given up
			time.Sleep(time.Second)
			c.Beat()
		}
		c04WearOnce(c, h, files, kase, k*10+pass)
	}
	c04Capacity(c, h, files, kase, k)
}

func c04WearOnce(c *Ctx, h *Host, files []*chunkFile, kase map[string]any, k int) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := c.Rng("wear", k*10+i)
			s := newSock(ip127(96000+i), 0)
			defer s.close()
			n := c.N(3000, 30000)
			f := files[r.IntN(len(files))]
			for len(f.have) == 0 {
				f = files[r.IntN(len(files))]
			}
			for x := 0; x < n && c.Failed() == 0; x += 100 {
				if !c.Await("handle", kase, func() {
					for y := x; y < x+100; y++ {
						var b []byte
						switch i {
						case 0, 1, 2, 3:
							b = encOpen(f.hash, uint16(f.have[r.IntN(len(f.have))]), uint16(1+r.IntN(20)))
						case 4:
							b = encAck(uint32(y))
						case 5:
							b = encListReq(uint16(y)&0x7fff, f.hash)
						case 6:
							b = encDiscReq(uint16(y)&0x7fff, f.hash, nil)
						case 7:
							b = encDiscResp(uint16(y), [4]byte{127, 0, 0, 1}, 1, nil)
						}
						c.Guard("panic", kase, func() { h.handle(b, s.addr) })
					}
				}) {
					return
				}
				for {
					if _, ok := s.next(0); !ok {
						break
					}
				}
			}
			c.Obs("repetitions of one request", n)
		}()
	}
	wg.Wait()
}

// c04Capacity checks that many others can still be served at once.
func c04Capacity(c *Ctx, h *Host, files []*chunkFile, kase map[string]any, k int) {
	r := c.Rng("wear", k)
	var socks []*sock
	for i := 0; i < 64; i++ {
		s := newSock(ip127(97000+i), 0)
		defer s.close()
		socks = append(socks, s)
	}
	var served map[int]bool
	for try := 0; try < 8 && len(served) < len(socks) && c.Failed() == 0; try++ {
		served = map[int]bool{}
		for i, s := range socks {
			f := files[r.IntN(len(files))]
			for len(f.have) == 0 {
				f = files[r.IntN(len(files))]
			}
			for { // of the try before
				if _, ok := s.next(0); !ok {
					break
				}
			}
			s.send(h.addr, encOpen(f.hash, uint16(f.have[0]), 1))
			if i%8 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		for i, s := range socks {
			if _, ok := s.next(time.Second); ok {
				served[i] = true
			} else if i-len(served) > 2 {
				break
			}
			c.Beat()
		}
	}
	if len(served) < len(socks) {
		c.Fail("probe-capacity", kase, "after many requests of a few addresses, only %d of %d others can open a transfer at once, in 8 tries", len(served), len(socks))
	}
	c.Obs("transfers opened at once after many requests", len(served))
}

// c04Real floods a real daemon.
func c04Real(c *Ctx, lab int, prefix []string) {
	r := c.Rng("real", lab)
	h := newReal(c, lab, 2)
	defer c.rm(h.dir)
	defer h.close()
	h.prefix = prefix
	kase := map[string]any{"real daemon": lab, "started by": fmt.Sprint(prefix)}
	var files []*chunkFile
	partial := &chunkFile{data: randBytes(r, 90), chunk: 10, have: []int{0, 1, 2, 5, 8}}
	partial.hash = sum(partial.data)
	none := &chunkFile{data: randBytes(r, 5000), chunk: 50, have: []int{}} // nothing of it is there yet
	none.hash = sum(none.data)
	paths := h.seed([]seedFile{{Data: partial.data, Chunk: 10, Name: "partial.bin", Have: partial.have}, {Data: none.data, Chunk: 50, Name: "none.bin", Have: none.have}})
	partial.path, none.path = paths[0], paths[1]
	files = append(files, partial, none)
	for i, n := range []int{1, 999, 5000, 300000} {
		f := &chunkFile{data: randBytes(r, n), chunk: defaultChunk, have: []int{0}, path: fmt.Sprintf("%s/work/f%d.bin", h.inner, i)}
		f.hash = sum(f.data)
		write(h.path(f.path), f.data)
		files = append(files, f)
	}
	if !h.start() {
		c.Fail("start", kase, "the daemon does not start: %s", h.crash())
		return
	}
	for _, f := range files[2:] {
		if out, code := h.cli("", "share", f.path); code != 0 {
			c.Fail("share", kase, "sharing fails: %d %q", code, out)
			return
		}
	}
	for i := 0; i < 6; i++ {
		must(sh("ip addr add %s.0.%d/24 dev br%d", netOf(lab), 50+i, lab))
	}
	disc := onBridge(lab)
	defer disc.close()
	p := &prober{c: c, kase: kase, r: r, ip: bridgeIP(lab), disc: disc, to: h.addr(), addr: [4]byte(h.addr().IP), port: daemonPort, files: files, names: baseNames(files)}
	home := func() Tree { return tree(filepath.Join(h.dir, "home"), treeContent|treeTimes) }
	work := func() Tree { return tree(filepath.Join(h.dir, "work"), treeContent|treeTimes) }
	list := func() (string, bool) {
		var res cli.ListResponse
		err, ok := h.call("List", &cli.ListRequest{}, &res)
		var l []string
		for _, it := range res.Items {
			l = append(l, fmt.Sprintf("%+v", it))
		}
		return fmt.Sprint(sortedStrings(l), err), ok
	}
	if !p.all("before any flood") {
		return
	}
	homeBefore, workBefore := home(), work()
	listBefore, _ := list()
	phases := c.N(2, 12)
	for phase := 0; phase < phases && h.alive(); phase++ {
		var wg sync.WaitGroup
		stop := make(chan struct{})
		wg.Add(1)
		go func() { // it is in use meanwhile
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if prefix == nil {
					h.cli("", "chims")
				} else {
					h.call("List", &cli.ListRequest{}, &cli.ListResponse{})
					time.Sleep(50 * time.Millisecond)
				}
			}
		}()
		var fl sync.WaitGroup
		for i := 0; i < 6; i++ {
			fl.Add(1)
			go func() {
				defer fl.Done()
				fr := c.Rng("flooder", lab*10000+phase*10+i)
				g := &noise{r: fr, files: files, ids: func() uint16 { return uint16(fr.IntN(20)) }}
				s := newSock(fmt.Sprintf("%s.0.%d", netOf(lab), 50+i), 0)
				defer s.close()
				for n := 0; n < c.N(2500, 8000) && h.alive(); n++ {
					b := g.next()
					s.send(h.addr(), b)
					c.Eval(string(b))
					if n%10 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
				c.Obs("datagrams to real daemons", c.N(2500, 8000))
			}()
		}
		if prefix != nil { // more transfers than it has file descriptors for, none of which goes on
			fl.Add(1)
			go func() {
				defer fl.Done()
				f := files[len(files)-1]
				for n := 0; n < 300 && h.alive(); n++ {
					s := newSock(bridgeIP(lab), 0)
					s.send(h.addr(), encOpen(f.hash, 0, 1024))
					if n%5 == 0 {
						s.send(h.addr(), encDiscReq(uint16(n), f.hash, nil))
						s.send(h.addr(), encListReq(uint16(n), blankHash))
					}
					time.Sleep(5 * time.Millisecond)
					s.close()
					c.ObsMax("most open files of the daemon short of them", len(h.fds()))
				}
			}()
		}
		fl.Wait()
		close(stop)
		wg.Wait()
		if !h.check(kase, fmt.Sprintf("after flood %d", phase)) {
			return
		}
		if prefix != nil {
			time.Sleep(14 * time.Second) // the transfers are given up
		}
		if !p.all(fmt.Sprintf("after flood %d", phase)) {
			if h.check(kase, "when asked after a flood") {
				os.Stderr.Write(tail(h.log(), 2000))
			}
			return
		}
		var now string
		c.WaitFor(20*time.Second, func() bool { now, _ = list(); return now == listBefore })
		if now != listBefore {
			c.Fail("real-list", kase, "after flood %d the daemon lists %s, before %s", phase, now, listBefore)
			return
		}
		if d := append(home().diff(homeBefore), work().diff(workBefore)...); len(d) > 0 {
			c.Fail("files", kase, "flood %d changed files of the daemon: %v", phase, d)
			return
		}
		if out, code := h.cli("", "chims"); code != 0 || !strings.Contains(out, fmt.Sprintf("IP: %s:%d\n", h.ip, daemonPort)) {
			c.Fail("real-chims", kase, "after flood %d, discovery through the CLI gives %d %q", phase, code, out)
			return
		}
		c.Obs("floods that real daemons survived", 1)
	}
	h.check(kase, "after the floods")
}
