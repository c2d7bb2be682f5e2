package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register("C02", "fault_enumeration", c02)
	register("C03", "exploration", c03)
}

// faultSpec is one disturbance of one datagram of a transfer.
type faultSpec struct {
	ToPeer bool
	N      int
	Kind   string
	Arg    int
}

func (f faultSpec) String() string {
	dir := "to downloader"
	if f.ToPeer {
		dir = "to peer"
	}
	return fmt.Sprintf("%s %d of packet %d %s", f.Kind, f.Arg, f.N, dir)
}

// apply returns nil if the fault does not concern the packet.
func (f faultSpec) apply(p packetInfo) []delivery {
	if p.toPeer != f.ToPeer || (p.n != f.N && !(f.Kind == "cut off" && p.n > f.N)) {
		return nil
	}
	cp := func() []byte { return append([]byte{}, p.data...) }
	data := cp()
	switch f.Kind {
	case "drop", "cut off":
		return []delivery{{}}
	case "duplicate":
		return []delivery{{data: data}, {data: cp()}}
	case "duplicate later":
		return []delivery{{data: data}, {data: cp(), hold: f.Arg}}
	case "reorder":
		return []delivery{{data: data, hold: f.Arg}}
	case "delay":
		return []delivery{{data: data, after: time.Duration(f.Arg) * time.Millisecond}}
	case "truncate":
		if f.Arg < 0 {
			return []delivery{{data: data[:max(0, len(data)+f.Arg)]}}
		}
		return []delivery{{data: data[:min(len(data), f.Arg)]}}
	case "corrupt":
		i := f.Arg
		if i < 0 {
			i += len(data)
		}
		if i >= 0 && i < len(data) {
			data[i] ^= 1 << (uint(f.Arg+f.N) % 8)
		}
		return []delivery{{data: data}}
	case "zero":
		for i := range data {
			if i >= f.Arg {
				data[i] = 0
			}
		}
		return []delivery{{data: data}}
	case "extend":
		return []delivery{{data: append(data, make([]byte, f.Arg)...)}}
	}
	panic(f.Kind)
}

// singleFaults lists all disturbances of a transfer with so many packets.
func singleFaults(packets int, thorough bool) []faultSpec {
	var l []faultSpec
	for n := 0; n < packets; n++ {
		add := func(kind string, args ...int) {
			for _, a := range args {
				l = append(l, faultSpec{false, n, kind, a})
			}
		}
		add("drop", 0)
		add("cut off", 0)
		add("duplicate", 0)
		add("duplicate later", 1, 2)
		add("reorder", 1, 2)
		add("delay", 40)
		add("truncate", 0, 1, 4, 5, 6, -1)
		add("corrupt", 0, 1, 2, 3, 4, 5, -1)
		add("zero", 0, 5)
		add("extend", 1, 300)
		if n == 0 {
			add("truncate", 24, 25, 28, 29)
			add("corrupt", 24, 25, 26, 27, 28, 29, 30)
			if thorough {
				for i := 6; i < 24; i++ {
					add("corrupt", i)
				}
			}
		}
	}
	for n := 0; n <= packets-1; n++ {
		add := func(kind string, args ...int) {
			for _, a := range args {
				l = append(l, faultSpec{true, n, kind, a})
			}
		}
		add("drop", 0)
		add("duplicate", 0)
		add("reorder", 1)
		add("truncate", 0, 3)
		add("corrupt", 0, 1, 4)
		if n == 0 {
			add("corrupt", 22, 23)
			add("zero", 23)
		}
	}
	return l
}

// fetch describes one monitored download.
type fetch struct {
	c        *Ctx
	kase     map[string]any
	data     []byte
	chunk    int
	deadline time.Duration
	proxies  []*Proxy
	down     *Down
	// when no more faults happen
	faultsEnd time.Time
}

// run requests the download and watches it to its end. It reports whether it completed.
func (f *fetch) run(unverified func(chunk int, what string)) (completed bool, why string) {
	c, d := f.c, f.down
	hash := sum(f.data)
	started := false
	for try := 0; try < 12 && !started; try++ { // the listing may have been lost
		var err error
		if !c.Await("download", f.kase, func() { err = d.srv.StartDownload(sha(hash)) }) {
			return false, "requesting it did not return"
		}
		started = err == nil
		why = fmt.Sprint(err)
	}
	if !started {
		return false, "cannot be requested: " + why
	}
	start := time.Now()
	done := map[int]bool{}
	reported := map[int]bool{}
	for wait := 20 * time.Millisecond; time.Since(start) < f.deadline; {
		c.Beat()
		if i, what := d.unverified(f.data, done); i >= 0 && !reported[i] {
			reported[i] = true
			if unverified != nil {
				unverified(i, what)
			}
		}
		if completed, why = d.complete(f.data); completed {
			return true, ""
		}
		time.Sleep(wait)
	}
	return false, why
}

// sharedHosts is a real sending server with files.
type sharedHosts struct {
	h     *Host
	files []*chunkFile
}

func newSharer(c *Ctx, r *rand.Rand, shapes [][2]int) *sharedHosts {
	st := newStore(c)
	s := &sharedHosts{h: newHost(c, st, 0)}
	for i, sh := range shapes {
		data := randBytes(r, sh[0])
		path, err := st.seed(data, sh[1], fmt.Sprintf("file-%d.bin", i), nil)
		if err != nil {
			c.Fail("seed", nil, "%v", err)
			continue
		}
		s.files = append(s.files, &chunkFile{hash: sum(data), data: data, chunk: sh[1], path: path})
	}
	return s
}

func (s *sharedHosts) add(c *Ctx, data []byte, chunk int) *chunkFile {
	path, err := s.h.st.seed(data, chunk, "file.bin", nil)
	if err != nil {
		c.Fail("seed", nil, "%v", err)
	}
	f := &chunkFile{hash: sum(data), data: data, chunk: chunk, path: path}
	s.files = append(s.files, f)
	return f
}

func c02(c *Ctx) {
	c.Rule(`A download of a two-chunk file by the real server from the real server through a network that disturbs
		one datagram (every datagram of the first chunk's transfer in both directions, in every way of a fixed
		list: lost, cut off, duplicated, reordered, delayed, truncated, corrupted, zeroed, extended), or many at
		random; or from a scripted peer whose announcement and data disagree, or that sends packets with other bytes
		among the right ones; or a download that is removed when some of it is there, and requested again. A monitor compares every chunk
		that the catalogue lists as available with the real bytes on disk, all the time and at the end.
		Distinct by chunk size and fault(s).`)
	r := c.Rng("files", 0)
	sizes := []int{700, 1001, 2100, 3500}
	if !c.Quick {
		sizes = append(sizes, 1, 999, 1000, 2024, 2025, 9000)
	}
	var shapes [][2]int
	for _, s := range sizes {
		shapes = append(shapes, [2]int{s + 1 + s/2, s})
	}
	sh := newSharer(c, r, shapes)
	defer sh.h.close()
	type job struct {
		file   *chunkFile
		faults []faultSpec
		rate   float64
		lie    int
	}
	var jobs []job
	for i, f := range sh.files {
		packets := len(chunkPackets(chunkOf(f.data, f.chunk, 0)))
		all := singleFaults(packets, !c.Quick)
		for k, fs := range all {
			if c.Quick && i != 2 && k%3 != i%3 {
				continue // the sizes share them
			}
			jobs = append(jobs, job{file: f, faults: []faultSpec{fs}})
		}
		// two faults in the same transfer
		for k := 0; k < c.N(15, 600); k++ {
			jobs = append(jobs, job{file: f, faults: []faultSpec{all[r.IntN(len(all))], all[r.IntN(len(all))]}})
		}
	}
	for k := 0; k < c.N(40, 600); k++ {
		jobs = append(jobs, job{file: sh.files[r.IntN(len(sh.files))], rate: 0.02 + 0.3*r.Float64()})
	}
	for k := 0; k < lies+c.N(120, 1500); k++ {
		jobs = append(jobs, job{file: sh.files[k%len(sh.files)], lie: k + 1})
	}
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	Par(2, c.N(4, 40), func(k int) {
		if c.Failed() <= 10 {
			c02Big(c, k)
		}
	})
	var again sync.WaitGroup
	defer again.Wait()
	again.Add(1)
	go func() {
		defer again.Done()
		Par(c.N(16, 40), c.N(16, 160), func(k int) {
			if c.Failed() <= 10 {
				c02Again(c, k)
			}
		})
	}()
	Par(250, len(jobs), func(k int) {
		if c.Failed() > 10 {
			return
		}
		j := jobs[k]
		jr := c.Rng("job", k)
		kase := map[string]any{"file": len(j.file.data), "chunk size": j.file.chunk, "faults": fmt.Sprint(j.faults), "rate": j.rate}
		d := newDown(c)
		defer d.lan.close()
		defer d.stop()
		f := &fetch{c: c, kase: kase, data: j.file.data, chunk: j.file.chunk, down: d, deadline: 60 * time.Second}
		var faulted func() int
		if j.lie > 0 {
			p := newPeer(ip127(k))
			defer p.close()
			lying(c, p, j.file, j.lie-1, kase, jr)
			d.lan.set(p.sock.addr)
			faulted = func() int { return 1 }
		} else {
			p := newProxy(c, sh.h.addr, ip127(k))
			defer p.close()
			end := time.Now().Add(12 * time.Second)
			p.setFault(func(info packetInfo) []delivery {
				if info.chunk < 0 {
					return nil
				}
				if j.rate > 0 && time.Now().Before(end) {
					if jr.Float64() < j.rate {
						all := []string{"drop", "duplicate", "duplicate later", "reorder", "delay", "truncate", "corrupt", "corrupt", "zero", "extend"}
						fs := faultSpec{info.toPeer, info.n, all[jr.IntN(len(all))], 1 + jr.IntN(max(1, len(info.data)))}
						if fs.Kind == "reorder" || fs.Kind == "duplicate later" {
							fs.Arg = 1 + jr.IntN(3)
						}
						if fs.Kind == "delay" {
							fs.Arg = 1 + jr.IntN(3000)
						}
						return fs.apply(info)
					}
					return nil
				}
				if info.flow == 1 && info.chunk == 0 {
					for _, fs := range j.faults {
						if out := fs.apply(info); out != nil {
							return out
						}
					}
				}
				return nil
			})
			d.lan.set(p.addr)
			faulted = func() int { p.mu.Lock(); defer p.mu.Unlock(); return p.stats.faulted }
		}
		ok, why := f.run(func(i int, what string) {
			c.Fail("unverified", kase, "chunk %d is listed as available, but the file does not hold the bytes that were announced: %s", i, what)
		})
		if !ok {
			c.Obs("downloads that did not complete", 1) // C03 judges that
			_ = why
		} else {
			c.Obs("downloads watched to completion", 1)
		}
		n := faulted()
		c.Obs("datagrams disturbed", n)
		key := ""
		if n > 0 {
			key = fmt.Sprintf("%d %v %v %d", j.file.chunk, j.faults, j.rate, j.lie)
		}
		c.Eval(key)
		if k%150 == 0 {
			c.Sample("download", map[string]any{"faults": fmt.Sprint(j.faults), "rate": j.rate, "lie": j.lie, "completed": ok})
		}
		c.rm(d.base)
	})
}

// c02Again removes a download that has come in in part, and requests it again, from peers that have
// only the rest.
func c02Again(c *Ctx, k int) {
	r := c.Rng("again", k)
	chunk := 1 + r.IntN(900)
	chunks := 2 + r.IntN(6)
	data := randBytes(r, chunk*(chunks-1)+1+r.IntN(chunk))
	d := newDown(c)
	defer func() { d.stop(); d.lan.close() }()
	kase := map[string]any{"again": k, "file": len(data), "chunk size": chunk}
	p := newPeer(ip127(70000 + k))
	defer p.close()
	p.serve(sum(data), data, chunk, "again.bin")
	var mu sync.Mutex
	cut := 1 + r.IntN(chunks-1) // it is not sent from here on
	first := p.onOpen
	p.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		mu.Lock()
		no := int(m.Chunk) >= cut
		mu.Unlock()
		if no {
			p.sock.send(from, []byte{tData, 0, 0, 0, 0, 1})
			return
		}
		first(p, from, m)
	}
	d.lan.set(p.sock.addr)
	bad := func(when string) bool {
		i, what := d.unverified(data, nil)
		if i >= 0 {
			c.Fail("unverified", kase, "%s: chunk %d is listed as available, but the file does not hold its bytes: %s", when, i, what)
		}
		return i >= 0
	}
	for round := 0; round < 3; round++ {
		if !c.Await("request", kase, func() {
			if err := d.srv.StartDownload(sha(sum(data))); err != nil {
				c.Fail("request", kase, "round %d: %v", round, err)
			}
		}) || c.Failed() > 10 {
			return
		}
		if bad(fmt.Sprintf("just after request %d", round+1)) {
			return
		}
		if !c.WaitFor(60*time.Second, func() bool {
			rec, err := d.st.Cat.Contains(sha(sum(data)))
			return err == nil && rec.Progress.Count() >= cut
		}) {
			c.Obs("downloads that did not get that far", 1) // C03 judges that
			return
		}
		if bad(fmt.Sprintf("%d chunks after request %d", cut, round+1)) {
			return
		}
		path := d.path(data)
		if err := d.st.Cat.UnshareFile(sha(sum(data))); err != nil {
			c.Fail("unshare", kase, "%v", err)
			return
		}
		if r.IntN(2) == 0 {
			os.Remove(path)
		}
		if r.IntN(2) == 0 {
			st, err := openStore(d.st.Dir, d.st.Down)
			if err != nil {
				c.Fail("open", kase, "%v", err)
				return
			}
			nd := newDownOn(c, d.base, st)
			nd.lan.set(p.sock.addr)
			d.lan.close()
			d = nd
		}
		mu.Lock()
		if cut = r.IntN(cut + 1); round == 1 {
			cut = chunks
		}
		mu.Unlock()
		c.Obs("partial downloads removed and requested again", 1)
	}
	c.Eval(fmt.Sprintf("again %d %d", chunk, chunks))
}

// c02Big lets the last packet of a large chunk be wrong, and looks as often as it can whether the chunk is
// listed for a moment.
func c02Big(c *Ctx, k int) {
	r := c.Rng("big", k)
	size := 2<<20 + r.IntN(2<<20)
	data := randBytes(r, size)
	chunk := size - k%2*(1+r.IntN(1000)) // one chunk, or one and a bit
	kase := map[string]any{"size": size, "chunk size": chunk, "lie": "the last byte of the first chunk is wrong"}
	hash := sum(data)
	d := newDown(c)
	defer c.rm(d.base)
	defer d.lan.close()
	defer d.stop()
	p := newPeer(ip127(30000 + k))
	defer p.close()
	p.serve(hash, data, chunk, "big.bin")
	honest := chunkPackets(chunkOf(data, chunk, 0))
	wrong := append([][]byte{}, honest...)
	last := append([]byte{}, wrong[len(wrong)-2]...)
	last[len(last)-1] ^= 1
	wrong[len(wrong)-2] = last
	const window = 48 // fits into the receive buffer
	var mu sync.Mutex
	transfers, liesSent := 0, 0
	type flow struct {
		rest [][]byte
		lie  bool
	}
	flows := map[string]*flow{}
	onOpen := p.onOpen
	send := func(from *net.UDPAddr, f *flow, n int) {
		for ; n > 0 && len(f.rest) > 0; n-- {
			p.sock.send(from, f.rest[0])
			f.rest = f.rest[1:]
			if len(f.rest) == 0 && f.lie {
				liesSent++
			}
		}
	}
	p.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if m.Chunk != 0 {
			onOpen(p, from, m)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		transfers++
		f := &flow{rest: honest}
		if transfers <= 3 {
			f.rest, f.lie = wrong, true
		}
		flows[from.String()] = f
		send(from, f, 1)
	}
	onAck := p.onAck
	p.onAck = func(p *Peer, from *net.UDPAddr, m wMsg) {
		mu.Lock()
		defer mu.Unlock()
		f := flows[from.String()]
		switch {
		case f == nil:
			onAck(p, from, m)
		case m.Offset == 0:
			send(from, f, window)
		default:
			send(from, f, 1)
		}
	}
	d.lan.set(p.sock.addr)
	if err := d.srv.StartDownload(sha(hash)); err != nil {
		c.Fail("refused", kase, "the download cannot be requested: %v", err)
		return
	}
	looks := 0
	end := time.Now().Add(60 * time.Second)
	for listed := false; !listed && time.Now().Before(end); looks++ {
		if looks%64 == 0 {
			c.Beat()
		}
		rec, err := d.st.Cat.Contains(sha(hash))
		if listed = err == nil && rec.Progress.Get(0); listed {
			if i, what := d.unverified(data, nil); i >= 0 {
				c.Fail("unverified", kase, "chunk %d is listed as available, but the file does not hold the bytes that were announced: %s", i, what)
			}
			mu.Lock()
			if transfers <= 3 {
				c.Fail("unverified", kase, "the first chunk was listed as available while only wrong ones had been sent (%d transfers)", transfers)
			}
			mu.Unlock()
		}
		time.Sleep(200 * time.Microsecond)
	}
	c.Obs("looks at the catalogue during large transfers", looks)
	mu.Lock()
	c.Obs("large chunks with a wrong last packet", liesSent)
	mu.Unlock()
	c.Eval(fmt.Sprintf("big %d %d", size, chunk))
}

const lies = 60

// lying makes a peer that announces one thing and sends another in its first transfer, in many ways,
// and is honest from then on.
func lying(c *Ctx, p *Peer, f *chunkFile, kind int, kase map[string]any, r *rand.Rand) {
	p.serve(f.hash, f.data, f.chunk, "lie.bin")
	honestOpen, honestAck := p.onOpen, p.onAck
	chunk := chunkOf(f.data, f.chunk, 0)
	hash := sum(chunk)
	data := append([]byte{}, chunk...)
	n := 0
	switch {
	case kind < 20:
		hash[kind] ^= 1 << (kind % 8)
		kase["lie"] = fmt.Sprintf("byte %d of the announced SHA-1 is wrong", kind)
	case kind == 20:
		hash = Hash{}
		kase["lie"] = "the announced SHA-1 is zero"
	case kind == 21:
		hash = blankHash
		kase["lie"] = "the announced SHA-1 is blank"
	case kind == 22:
		hash = f.hash
		kase["lie"] = "the announced SHA-1 is the file's"
	case kind == 23:
		hash = sum(nil)
		kase["lie"] = "the announced SHA-1 is that of nothing"
	case kind >= lies:
		kase["lie"] = "packets with other bytes among the right ones"
	case kind >= 44: // only the first bytes are sent, which the announced SHA-1 fits
		n = []int{1, 1000, 1001, 2024, len(data) / 2, len(data) - 1, 0, 999}[(kind-44)%8]
		n = max(0, min(n, len(data)-1))
		hash = sum(data[:n])
		kase["lie"] = fmt.Sprintf("only the first %d bytes are sent, and the announced SHA-1 is theirs", n)
	default:
		i := []int{0, 1, len(data) / 2, len(data) - 2, len(data) - 1, min(999, len(data)-1), min(1000, len(data)-1), min(1023, len(data)-1), min(1024, len(data)-1), min(2023, len(data)-1)}[(kind-24)%10]
		i = max(i, 0)
		data[i] ^= 0x40
		kase["lie"] = fmt.Sprintf("byte %d of the data is wrong", i)
	}
	packets := chunkPackets(data)
	packets[0] = encOpening(hash, uint32(len(data)), data[:min(1000, len(data))])
	if kind >= 44 && kind < lies {
		packets = chunkPackets(data[:n])
		packets = packets[:len(packets)-1]
		packets[0] = encOpening(hash, uint32(len(data)), data[:min(1000, n)])
		if kind >= 52 && n > 0 { // as many bytes as announced, but some of them twice
			for sent := n; sent < len(data); {
				m := min(n, 1024, len(data)-sent)
				packets = append(packets, encData(0, data[:m]))
				sent += m
			}
		}
		packets = append(packets, encData(uint32(len(data)), nil))
	}
	if kind >= lies {
		packets = mixed(r, chunk, packets)
		kase["packets"] = summary(packets)
	}
	told := false
	var first string
	p.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if told || m.Chunk != 0 {
			honestOpen(p, from, m)
			return
		}
		told = true
		first = from.String()
		for _, b := range packets {
			p.sock.send(from, b)
		}
	}
	p.onAck = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if from.String() != first {
			honestAck(p, from, m)
		}
	}
}

// mixed adds packets with other contents to a transfer: they overwrite what came before or is to come, at
// the same or at other offsets. What is announced stays true. Some packets are missing.
func mixed(r *rand.Rand, chunk []byte, packets [][]byte) [][]byte {
	wrong := func() []byte {
		off := []int{0, r.IntN(len(chunk)), len(chunk) - 1, len(chunk), 999, 1000, 1001, 2024}[r.IntN(8)]
		off = min(off, len(chunk))
		n := min([]int{1, r.IntN(1024) + 1, 1024, 1000}[r.IntN(4)], len(chunk)-off)
		data := append([]byte{}, chunk[off:off+n]...)
		if n > 0 && r.IntN(4) > 0 {
			data[r.IntN(n)] ^= 1 << r.IntN(8)
		}
		if n == 0 && r.IntN(4) > 0 {
			return encData(uint32(off), []byte{7})
		}
		if off == 0 && r.IntN(2) == 0 {
			return encOpening(sum(chunk), uint32(len(chunk)), data)
		}
		return encData(uint32(off), data)
	}
	var out [][]byte
	for i, b := range packets {
		before := r.IntN(3) == 0 && i > 0
		if i == len(packets)-1 { // the end marker
			before = r.IntN(4) > 0
		}
		for n := r.IntN(3); before && n >= 0; n-- {
			out = append(out, wrong())
		}
		if i > 0 && i < len(packets)-1 && r.IntN(6) == 0 {
			continue
		}
		out = append(out, b)
		if i > 0 && i < len(packets)-1 && r.IntN(8) == 0 { // again, or instead of another
			out = append(out, packets[1+r.IntN(len(packets)-2)])
		}
	}
	return out
}

// summary shows offsets and lengths.
func summary(packets [][]byte) string {
	var l []string
	for i, b := range packets {
		off, data, _ := wData(b)
		if i == 0 {
			data = data[24:]
		}
		l = append(l, fmt.Sprintf("%d+%d", off, len(data)))
	}
	return strings.Join(l, " ")
}

func c03(c *Ctx) {
	c.Rule(`A download by the real server from one or two real servers (or scripted ones) through a network that
		loses, duplicates, reorders, truncates, corrupts and delays datagrams for some seconds, with one honest peer among up
		to a dozen others, with peers that vanish or come back elsewhere, or through a slow one, so that one chunk takes up to a minute,
		or that cannot be reached or used for most of a minute. From then on each missing chunk must take a bounded number of transfer
		requests and the file must become exactly the one asked for, with all chunks listed. Files differ in size
		and chunk size. If the sent chunks make up another file, its entry must go. Distinct by file and faults.`)
	c.Assume("a chunk of up to 60 KB fits into the kernel's default receive buffer, so that nothing is lost there")
	n := c.N(260, 2500)
	r := c.Rng("files", 0)
	sh := newSharer(c, r, nil)
	defer sh.h.close()
	other := newSharer(c, r, nil)
	defer other.h.close()
	var mu sync.Mutex
	Par(260, n, func(k int) {
		if c.Failed() > 10 {
			return
		}
		jr := c.Rng("job", k)
		chunk := []int{1 + jr.IntN(5), 1 + jr.IntN(3000), 1 + jr.IntN(3000), 1000 + jr.IntN(50)*1, 1024 * (1 + jr.IntN(4)), 1 + jr.IntN(60000)}[jr.IntN(6)]
		chunks := 1 + jr.IntN(4)
		if k%10 == 0 {
			chunks = c.N(7, 30)
		}
		size := max(1, chunk*chunks-jr.IntN(chunk))
		if jr.IntN(4) == 0 {
			size = chunk * chunks
		}
		data := randBytes(jr, size)
		if size < 4 {
			chunk, data = 4, randBytes(jr, 9+jr.IntN(3)) // short contents would be the same file
		}
		kase := map[string]any{"size": len(data), "chunk size": chunk}
		d := newDown(c)
		defer c.rm(d.base)
		defer d.lan.close()
		defer d.stop()
		if jr.IntN(8) == 0 {
			c03Wrong(c, d, jr, data, chunk, kase, k)
			return
		}
		sh.add2(c, &mu, data, chunk)
		rate := 0.0
		mode := []string{"clean", "faults", "faults", "vanish", "two peers", "total loss", "slow", "moves"}[jr.IntN(8)]
		if k%7 == 5 && chunks <= 2 {
			mode = "throttled" // a chunk takes longer than any packet may
		}
		if k%32 == 9 {
			mode = "stubborn" // no transfer succeeds, or nobody is there, for very long
		}
		if k%16 == 3 {
			mode = "crowd" // most of those who say that they have it do not send it
		}
		kase["mode"] = mode
		p := newProxy(c, sh.h.addr, ip127(2*k))
		defer p.close()
		proxies := []*Proxy{p}
		faultTime := time.Duration(0)
		peers := []*net.UDPAddr{p.addr}
		var gap time.Duration
		perChunk := len(chunkPackets(data[:min(len(data), chunk)]))
		if mode == "throttled" {
			total := time.Duration(7000+jr.IntN(c.N(9000, 60000))) * time.Millisecond
			gap = min(total/time.Duration(perChunk), 3*time.Second)
			kase["gap"] = gap.String()
		}
		switch mode {
		case "faults":
			rate = 0.02 + 0.3*jr.Float64()
			faultTime = time.Duration(2000+jr.IntN(8000)) * time.Millisecond
		case "total loss":
			rate = 1
			faultTime = time.Duration(2000+jr.IntN(5000)) * time.Millisecond
		case "slow":
			rate = 0.5
			faultTime = 8 * time.Second
		case "stubborn":
			faultTime = time.Duration(c.N(50, 400)) * time.Second
			kase["absent"] = k%64 == 9
		case "crowd":
			bad, at := 3+jr.IntN(c.N(9, 40)), 0
			if at = jr.IntN(bad + 1); jr.IntN(2) == 0 {
				at = bad
			}
			silent := 0
			peers = nil
			for i := 0; i <= bad; i++ {
				if i == at {
					peers = append(peers, p.addr)
					continue
				}
				q := newPeer(fmt.Sprintf("127.%d.%d.%d", 210+k/200, k%200, 2+i))
				defer q.close()
				q.serve(sum(data), data, chunk, "crowd.bin") // what it is it can tell
				how := jr.IntN(4)
				if how == 0 {
					if silent++; silent > 1 {
						how = 1
					}
				}
				q.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
					switch how {
					case 0:
					case 1:
						p.sock.send(from, []byte{tData, 0, 0, 0, 0, 1})
					case 2:
						p.sock.send(from, encOpening(sum(nil), 3, []byte{1, 2, 3}))
						p.sock.send(from, encData(3, nil))
					case 3:
						p.sock.send(from, encData(7, nil))
					}
				}
				q.onAck = nil
				peers = append(peers, q.sock.addr)
			}
			kase["peers"], kase["honest"] = len(peers), at
		case "two peers", "vanish", "moves":
			other.add2(c, &mu, data, chunk)
			q := newProxy(c, other.h.addr, ip127(2*k+1))
			defer q.close()
			proxies = append(proxies, q)
			peers = append(peers, q.addr)
			if mode == "vanish" {
				faultTime = time.Duration(1000+jr.IntN(9000)) * time.Millisecond
			}
			if mode == "moves" { // only one is there, and stops serving; later there is only the other
				faultTime = time.Duration(3000+jr.IntN(12000)) * time.Millisecond
				peers = peers[:1]
			}
		}
		kase["rate"] = rate
		start := time.Now()
		end := start.Add(faultTime)
		served := jr.IntN(chunks) // by the first of those that move
		var frMu sync.Mutex
		next := map[[2]int]time.Time{}
		fr := rand.New(rand.NewPCG(jr.Uint64(), 3))
		for i, px := range proxies {
			px.setFault(func(info packetInfo) []delivery {
				if mode == "throttled" && !info.toPeer && info.chunk >= 0 {
					frMu.Lock()
					defer frMu.Unlock()
					key := [2]int{info.chunk, info.flow}
					at := next[key]
					if now := time.Now(); at.Before(now) {
						at = now
					}
					next[key] = at.Add(gap)
					return []delivery{{data: append([]byte{}, info.data...), after: time.Until(at)}}
				}
				if mode == "moves" && i == 0 && (info.chunk >= served || !time.Now().Before(end)) {
					return []delivery{{}}
				}
				if !time.Now().Before(end) {
					return nil
				}
				if mode == "stubborn" {
					switch {
					case info.chunk < 0:
						return nil
					case k%64 == 9 || k%128 == 41:
						return []delivery{{}}
					case info.toPeer:
						return nil
					}
					return faultSpec{N: info.n, Kind: "truncate", Arg: 10}.apply(info) // fails at once
				}
				frMu.Lock()
				defer frMu.Unlock()
				if mode == "vanish" && i == 0 {
					return []delivery{{}}
				}
				if fr.Float64() >= rate {
					return nil
				}
				if mode == "slow" {
					return []delivery{{data: append([]byte{}, info.data...), after: time.Duration(fr.IntN(900)) * time.Millisecond}}
				}
				if mode == "total loss" {
					return []delivery{{}}
				}
				if info.chunk < 0 { // metadata: forging it is another matter
					return []delivery{{}}
				}
				kinds := []string{"drop", "duplicate", "duplicate later", "reorder", "truncate", "corrupt", "corrupt", "extend"}
				fs := faultSpec{info.toPeer, info.n, kinds[fr.IntN(len(kinds))], 1 + fr.IntN(40)}
				if fs.Kind == "reorder" || fs.Kind == "duplicate later" {
					fs.Arg = 1 + fr.IntN(3)
				}
				return fs.apply(info)
			})
		}
		d.lan.set(peers...)
		if mode == "vanish" {
			time.AfterFunc(faultTime, func() { d.lan.set(peers[0]) }) // and the other one goes for good
		}
		if mode == "stubborn" && k%64 == 9 {
			time.AfterFunc(2500*time.Millisecond, func() { d.lan.set() })
			time.AfterFunc(faultTime, func() { d.lan.set(p.addr) })
		}
		if mode == "moves" {
			time.AfterFunc(faultTime, func() { d.lan.set(proxies[1].addr) })
		}
		f := &fetch{c: c, kase: kase, data: data, chunk: chunk, down: d, deadline: faultTime + time.Duration(60+10*chunks)*time.Second + 2*gap*time.Duration(perChunk*chunks)}
		stop := make(chan struct{})
		var watch sync.WaitGroup
		watch.Add(1)
		tooMany := false
		go func() { // a chunk that is requested again and again will never come
			defer watch.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(300 * time.Millisecond):
				}
				per := map[int]int{}
				for _, px := range proxies {
					for _, o := range px.opensSince(end) {
						if per[o.chunk]++; per[o.chunk] > 10*len(proxies) && !tooMany {
							tooMany = true
							c.Fail("attempts", kase, "chunk %d was requested %d times without faults and is still not there", o.chunk, per[o.chunk])
						}
					}
				}
			}
		}()
		ok, why := f.run(nil)
		close(stop)
		watch.Wait()
		if !ok {
			c.Fail("incomplete", kase, "the download is not complete %v after the faults stopped: %s", time.Since(end).Round(time.Second), why)
		} else {
			c.Obs("downloads completed: "+mode, 1)
			c.Obs("bytes compared", len(data))
			if dir := filepath.Dir(d.path(data)); dir != filepath.Join(d.base, "down") {
				c.Fail("place", kase, "the file is in %s", dir)
			}
			if ok, why := d.stays(data); !ok {
				c.Fail("lost-again", kase, "after it was complete: %s", why)
			}
		}
		requests, faulted := 0, 0
		for _, px := range proxies {
			px.mu.Lock()
			requests += len(px.opens)
			faulted += px.stats.faulted
			px.mu.Unlock()
		}
		c.Obs("transfer requests", requests)
		c.Obs("datagrams disturbed", faulted)
		if mode == "throttled" {
			c.ObsMax("seconds of the longest throttled chunk", int((gap * time.Duration(perChunk)).Seconds()))
		}
		c.Eval(fmt.Sprintf("%d %d %s %.2f", len(data), chunk, mode, rate))
		if k%60 == 1 {
			c.Sample("download", map[string]any{"size": len(data), "chunk size": chunk, "mode": mode, "rate": rate, "requests": requests, "disturbed": faulted})
		}
	})
}

func (s *sharedHosts) add2(c *Ctx, mu *sync.Mutex, data []byte, chunk int) {
	mu.Lock()
	defer mu.Unlock()
	if _, err := s.h.st.seed(data, chunk, "file.bin", nil); err != nil {
		c.Fail("seed", nil, "%v", err)
	}
}

func (d *Down) path(data []byte) string {
	rec, err := d.st.Cat.Contains(sha(sum(data)))
	if err != nil {
		return ""
	}
	return rec.FilePath
}

// stays checks that a completed download is still there after the final check of the downloader.
func (d *Down) stays(data []byte) (bool, string) {
	time.Sleep(60 * time.Millisecond)
	return d.complete(data)
}

// c03Wrong lets a peer send chunks that make up another file than was asked for.
func c03Wrong(c *Ctx, d *Down, r *rand.Rand, data []byte, chunk int, kase map[string]any, k int) {
	kase["mode"] = "wrong file"
	wrong := append([]byte{}, data...)
	wrong[r.IntN(len(wrong))] ^= 1
	asked := sum(data)
	p := newPeer(ip127(2 * k))
	defer p.close()
	p.serve(asked, wrong, chunk, "wrong.bin")
	d.lan.set(p.sock.addr)
	var err error
	if !c.Await("download", kase, func() { err = d.srv.StartDownload(sha(asked)) }) {
		return
	}
	if err != nil {
		c.Fail("refused", kase, "the download cannot be requested: %v", err)
		return
	}
	limit := time.Duration(60+10*chunkCount(int64(len(data)), chunk)) * time.Second
	if !c.WaitFor(limit, func() bool {
		_, err := d.st.Cat.Contains(sha(asked))
		return err != nil
	}) {
		rec, _ := d.st.Cat.Contains(sha(asked))
		c.Fail("wrong-file", kase, "the peer sent a file with another SHA-1, and it is listed under the one asked for: %+v", rec)
		return
	}
	if l, _, err := reopened(d.st.Dir, d.st.Down); err != nil || len(l) != 0 {
		c.Fail("wrong-file", kase, "after a restart the wrong file is listed: %v %v", l, err)
	}
	c.Obs("wrong files that did not stay", 1)
	c.Eval(fmt.Sprintf("wrong %d %d", len(data), chunk))
}
