package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C01", "exploration", c01)
	register("C27", "exploration", c27)
	register("C28", "exploration", c28)
	register("C29", "exploration", c29)
}

// xfer is a model of the downloading side of one transfer, which watches what it receives.
type xfer struct {
	c     *Ctx
	r     *rand.Rand
	peer  *sock
	to    *net.UDPAddr
	hash  Hash
	index int
	want  []byte // the chunk
	cap   int
	pol   ackPolicy

	kase     map[string]any
	recv     int // packets received
	acks     int // acks sent
	pending  []uint32
	seen     []bool
	covered  int
	opened   bool
	ended    bool
	lastAck  time.Time
	starved  bool // this side did not run for too long: no verdict
	failed   bool
	fullest  int // most packets without ack
	abandon  int // stop after this many packets, if > 0
	ownCheck bool
	diag     func() string
	gap      time.Duration // between slow acks
	slowFor  time.Duration
	again    bool // a stall is no verdict: the network can lose packets, and it will be tried again
}

type ackPolicy int

const (
	ackEach    ackPolicy = iota // immediately, in order
	ackHold                     // only when nothing more can come, some of them, in any order
	ackNewest                   // the newest unacknowledged first, once the window is full
	ackRandom                   // at random moments, in random order
	ackTwice                    // immediately, some repeatedly
	ackGarbled                  // immediately, with other offsets
	ackPolicies
	ackSlow // one after the other, with pauses, for some time
)

func (x *xfer) fail(sig, format string, args ...any) {
	x.failed = true
	v := Violation{Sig: sig, What: fmt.Sprintf(format, args...), Case: x.kase}
	if x.diag != nil {
		v.Detail = x.diag()
	}
	x.c.fail(v)
}

// total is how many packets a complete transfer has.
func (x *xfer) total() int {
	rest := len(x.want) - 1000
	if rest < 0 {
		rest = 0
	}
	return 1 + (rest+1023)/1024 + 1
}

func (x *xfer) open() {
	x.lastAck = time.Now()
	x.peer.send(x.to, encOpen(x.hash, uint16(x.index), uint16(x.cap)))
}

const starveLimit = 4 * time.Second // the sender gives up after 6 s without acks

func (x *xfer) ack(off uint32) {
	if time.Since(x.lastAck) > starveLimit {
		x.starved = true
	}
	x.lastAck = time.Now()
	x.acks++ // before sending: the reply must not overtake the count
	x.peer.send(x.to, encAck(off))
}

// take judges one received packet.
func (x *xfer) take(p pkt) {
	x.recv++
	off, data, ok := wData(p.data)
	if !ok {
		x.fail("not-data", "packet %d is not a data packet: %s", x.recv, clip(p.data, 40))
		return
	}
	limit := x.acks + x.cap
	if x.acks == 0 {
		limit = 1
	}
	if x.recv > limit {
		x.fail("window", "packet %d arrived after %d acks with a window of %d", x.recv, x.acks, x.cap)
	}
	x.fullest = max(x.fullest, x.recv-x.acks)
	if x.ended {
		x.fail("after-end", "packet at offset %d after the end marker", off)
		return
	}
	if !x.opened {
		// packets of one transfer are sent in order by one routine, so this is the opening packet
		if off != 0 || len(data) < 24 {
			x.fail("opening", "the first packet has offset %d and %d bytes", off, len(data))
			return
		}
		x.opened = true
		h := sum(x.want)
		if !bytes.Equal(data[:20], h[:]) {
			x.fail("opening-hash", "announced SHA-1 %x, the chunk has %v", data[:20], h)
		}
		if n := int(data[20])<<24 | int(data[21])<<16 | int(data[22])<<8 | int(data[23]); n != len(x.want) {
			x.fail("opening-size", "announced %d bytes, the chunk has %d", n, len(x.want))
		}
		x.cover(0, data[24:])
	} else if len(data) == 0 {
		x.ended = true
		if off == 0 || int64(off) > int64(len(x.want)) {
			x.fail("end-offset", "the end marker has offset %d of %d", off, len(x.want))
		}
		if x.covered != len(x.want) {
			x.fail("end-early", "end marker after %d of %d bytes", x.covered, len(x.want))
		}
		return // nobody acks it
	} else {
		x.cover(off, data)
	}
	x.pending = append(x.pending, off)
}

func (x *xfer) cover(off uint32, data []byte) {
	if int64(off)+int64(len(data)) > int64(len(x.want)) {
		x.fail("range", "%d bytes at offset %d of a chunk of %d", len(data), off, len(x.want))
		return
	}
	if !bytes.Equal(data, x.want[off:int(off)+len(data)]) {
		x.fail("bytes", "at offset %d: %s", off, firstDiff(data, x.want[off:int(off)+len(data)]))
	}
	for i := range data {
		if x.seen[int(off)+i] {
			x.fail("twice", "byte %d was sent twice", int(off)+i)
			return
		}
		x.seen[int(off)+i] = true
	}
	x.covered += len(data)
}

// run opens the transfer and plays it. It returns false if there is no verdict.
func (x *xfer) run() bool {
	x.kase = map[string]any{"chunk size": len(x.want), "index": x.index, "cap": x.cap, "policy": x.pol, "hash": x.hash.String(), "peer": x.peer.addr.String()}
	x.seen = make([]bool, len(x.want))
	dropped := drops(x.peer.conn)
	began := time.Now()
	x.open()
	lossy := func() bool {
		return x.starved || drops(x.peer.conn) != dropped
	}
	if x.pol != ackEach && x.r.IntN(4) == 0 {
		// nothing but the opening packet may come before the first ack
		if p, ok := x.peer.next(20 * time.Second); ok {
			x.take(p)
			x.settle(5 * time.Millisecond)
		}
	}
	for !x.ended && !x.failed {
		if x.abandon > 0 && x.recv >= x.abandon {
			return !lossy()
		}
		expect := x.acks + x.cap
		if x.acks == 0 {
			expect = 1
		}
		expect = min(expect, x.total())
		if x.recv < expect && (x.pol == ackHold || x.pol == ackNewest || x.pol == ackSlow || len(x.pending) == 0) {
			// the sender owes this packet
			p, ok := x.peer.next(time.Second)
			for i := 0; i < 24 && !ok && !lossy(); i++ {
				p, ok = x.peer.next(time.Second)
				x.c.Beat()
			}
			if lossy() {
				return false
			}
			if !ok && x.again {
				return false
			}
			if !ok {
				x.fail("stall", "nothing more arrived after %d packets (of %d), with %d acks and a window of %d", x.recv, x.total(), x.acks, x.cap)
				return true
			}
			x.take(p)
			continue
		}
		if p, ok := x.peer.next(0); ok {
			x.take(p)
			if x.pol != ackEach {
				continue
			}
		}
		if x.ended || x.failed {
			break
		}
		switch x.pol {
		case ackEach, ackTwice, ackGarbled:
			for len(x.pending) > 0 {
				off := x.pending[0]
				x.pending = x.pending[1:]
				if x.pol == ackGarbled {
					off = x.r.Uint32()
				}
				x.ack(off)
				if x.pol == ackTwice {
					for x.r.IntN(3) == 0 {
						x.ack(off)
					}
				}
			}
		case ackHold:
			if x.r.IntN(2) == 0 {
				x.settle(time.Duration(x.r.IntN(3000)) * time.Microsecond)
			}
			x.r.Shuffle(len(x.pending), func(i, j int) { x.pending[i], x.pending[j] = x.pending[j], x.pending[i] })
			x.ackSome(1 + x.r.IntN(max(1, len(x.pending))))
		case ackSlow:
			if d := time.Until(x.lastAck.Add(x.gap)); d > 0 && time.Since(began) < x.slowFor {
				x.settle(d)
			}
			x.ackSome(1)
		case ackNewest:
			for i, j := 0, len(x.pending)-1; i < j; i, j = i+1, j-1 {
				x.pending[i], x.pending[j] = x.pending[j], x.pending[i]
			}
			x.ackSome(len(x.pending))
		case ackRandom:
			if len(x.pending) > 0 {
				i := x.r.IntN(len(x.pending))
				x.pending[0], x.pending[i] = x.pending[i], x.pending[0]
				x.ackSome(1)
			}
			if x.r.IntN(16) == 0 {
				time.Sleep(time.Duration(x.r.IntN(500)) * time.Microsecond)
			}
		}
		if len(x.pending) == 0 && x.recv >= x.total() && !x.ended {
			x.fail("no-end", "%d packets and no end marker", x.recv)
		}
	}
	if lossy() {
		return false
	}
	if x.ended && x.pol != ackTwice {
		x.ackSome(len(x.pending)) // lets the sender finish
	}
	if x.ended && x.r.IntN(4) == 0 {
		x.settle(time.Duration(x.r.IntN(10)) * time.Millisecond)
	}
	return !lossy()
}

func (x *xfer) ackSome(n int) {
	for ; n > 0 && len(x.pending) > 0; n-- {
		off := x.pending[0]
		x.pending = x.pending[1:]
		x.ack(off)
	}
}

// settle takes whatever arrives for a while without acking.
func (x *xfer) settle(d time.Duration) {
	end := time.Now().Add(d)
	for {
		p, ok := x.peer.next(time.Until(end))
		if !ok {
			return
		}
		x.take(p)
	}
}

// chunkFile is content that a host has, in part or completely.
type chunkFile struct {
	hash  Hash
	data  []byte
	chunk int
	have  []int
	path  string
}

func (f *chunkFile) count() int { return chunkCount(int64(len(f.data)), f.chunk) }

var edgeSizes = []int{1, 2, 23, 24, 25, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2023, 2024, 2025, 2047, 2048, 2049, 3048, 3072, 4096, 5096, 10216, 10240, 65535, 65536, 65537}

// uploadFiles fills a catalogue with content of many shapes.
func uploadFiles(c *Ctx, st *Store, r *rand.Rand, n int, big bool) []*chunkFile {
	var files []*chunkFile
	add := func(data []byte, chunk int, have []int) {
		path, err := st.seed(data, chunk, oddName(r, len(files)), have)
		if err != nil {
			c.Fail("seed", nil, "preparing the catalogue: %v", err)
			return
		}
		if have == nil {
			for i := 0; i < chunkCount(int64(len(data)), chunk); i++ {
				have = append(have, i)
			}
		}
		files = append(files, &chunkFile{sum(data), data, chunk, have, path})
	}
	share := func(data []byte) {
		p := filepath.Join(filepath.Dir(st.Dir), "user", fmt.Sprintf("shared-%d", len(files)))
		write(p, data)
		if _, err := st.Cat.ShareFile(p); err != nil {
			c.Fail("seed", nil, "sharing: %v", err)
			return
		}
		f := &chunkFile{hash: sum(data), data: data, chunk: defaultChunk, path: p}
		for i := 0; i < f.count(); i++ {
			f.have = append(f.have, i)
		}
		files = append(files, f)
	}
	for _, size := range edgeSizes {
		if size <= 2 {
			add(randBytes(r, 6+len(files)), size, nil)
			continue
		}
		add(randBytes(r, size), size, nil) // one full chunk
		if size > 20 {
			share(randBytes(r, size))
			add(randBytes(r, size), size+1, nil) // one short chunk
			last := 1 + r.IntN(size)
			add(randBytes(r, size*2+last), size, []int{0, 2})
		}
	}
	for i := 0; i < n; i++ {
		chunk := 1 + r.IntN(1+r.IntN(20000))
		size := 1 + r.IntN(min(chunk*8, 60000))
		have := randHave(r, chunkCount(int64(size), chunk))
		if len(have) == 0 {
			have = []int{chunkCount(int64(size), chunk) - 1}
		}
		add(randBytes(r, size), chunk, have)
	}
	// constant content hides misplaced bytes, but is what real files are full of
	add(bytes.Repeat([]byte{0}, 5000), 1700, nil)
	if big {
		share(randBytes(r, defaultChunk+12345))
		share(randBytes(r, 2*defaultChunk))
		add(randBytes(r, 17<<20+r.IntN(1<<20)), 40<<20, nil) // offsets beyond 24 bits
	}
	return files
}

func randCap(r *rand.Rand) int {
	switch r.IntN(8) {
	case 0, 1:
		return 1
	case 2:
		return 2 + r.IntN(2)
	case 3:
		return 1 + r.IntN(16)
	case 4, 5:
		return 1024
	case 6:
		return 65535
	}
	return 1 + r.IntN(300)
}

// transfers runs a lot of monitored transfers, some of them at the same time.
func transfers(c *Ctx, n int, policy func(r *rand.Rand) ackPolicy) {
	st := newStore(c)
	files := uploadFiles(c, st, c.Rng("files", 0), c.N(60, 400), true)
	if len(files) == 0 {
		return
	}
	h := newHost(c, st, 0)
	defer h.close()
	type job struct {
		f *chunkFile
		i int
	}
	var jobs []job
	for _, f := range files {
		for _, i := range f.have {
			jobs = append(jobs, job{f, i})
		}
	}
	var skipped atomic.Int64
	Par(16, n, func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("transfer", k)
		j := jobs[k%len(jobs)]
		if k >= len(jobs) {
			j = jobs[r.IntN(len(jobs))]
		}
		want := chunkOf(j.f.data, j.f.chunk, j.i)
		if len(want) > 1<<20 && k >= len(jobs) && r.IntN(12) > 0 {
			return // big ones are slow
		}
		if len(want) > 8<<20 && k >= len(jobs) {
			return
		}
		window := randCap(r)
		if len(want) > 1<<20 {
			window = []int{64, 500, 1024, 2048}[r.IntN(4)]
		}
		if len(want) > 8<<20 {
			window = 20 + r.IntN(60)
		}
		pol := policy(r)
		for try := 0; ; try++ {
			peer := newSock(ip127(r.IntN(1000)), 0)
			to := h.addr
			if peer.addr.IP.IsUnspecified() {
				panic("no address")
			}
			x := &xfer{c: c, r: r, peer: peer, to: to, hash: j.f.hash, index: j.i, want: want, cap: window, pol: pol}
			ok := x.run()
			peer.close()
			if x.failed || ok {
				c.Eval(fmt.Sprintf("%d %d %d %d %d", len(j.f.data), j.f.chunk, j.i, window, pol))
				c.Obs("packets received", x.recv)
				c.Obs("acks sent", x.acks)
				c.Obs("bytes reassembled", x.covered)
				c.ObsMax("most packets in flight", x.fullest)
				c.ObsMax("largest chunk (KiB)", len(want)>>10)
				c.Obs(fmt.Sprintf("transfers with ack policy %d", pol), 1)
				if x.fullest == window && !x.failed {
					c.Obs("transfers that reached their window", 1)
				}
				if k%40 == 0 {
					c.Sample("transfer", map[string]any{"file": len(j.f.data), "chunk size": j.f.chunk, "chunk": j.i, "window": window, "policy": pol, "packets": x.recv})
				}
				return
			}
			skipped.Add(1)
			if try == 3 {
				return
			}
		}
	})
	c.Obs("attempts without a verdict (the kernel dropped a packet, or no CPU)", int(skipped.Load()))
}

func c01(c *Ctx) {
	c.Rule(`A transfer of one chunk from the real server to a model downloader, over loopback. The monitor follows
		every packet: the opening one must announce the chunk's length and SHA-1, the data must cover every byte
		once with the right content, then one end marker. Transfers differ in file size, chunk size, index,
		window and the order and timing of acks, 16 at a time; some take 14 s and more because their acks come with
		pauses. Distinct by these; a chunk needs at least one byte.`)
	var slow sync.WaitGroup
	slow.Add(1)
	go func() {
		defer slow.Done()
		slowTransfers(c, c.N(48, 160))
	}()
	transfers(c, c.N(6000, 150000), func(r *rand.Rand) ackPolicy { return ackPolicy(r.IntN(int(ackPolicies))) })
	Par(8, c.N(60, 1200), func(k int) { c01History(c, k) })
	slow.Wait()
}

// slowTransfers runs transfers that take long because their acks come slowly, all at the same time.
func slowTransfers(c *Ctx, n int) {
	st := newStore(c)
	files := uploadFiles(c, st, c.Rng("slow files", 0), 10, false)
	if len(files) == 0 {
		return
	}
	h := newHost(c, st, 0)
	defer h.close()
	Par(n, n, func(k int) {
		r := c.Rng("slow", k)
		f := files[0]
		for len(f.have) == 0 || len(chunkOf(f.data, f.chunk, f.have[0])) < 9000 {
			f = files[r.IntN(len(files))]
		}
		want := chunkOf(f.data, f.chunk, f.have[0])
		for try := 0; try < 2; try++ {
			peer := newSock(ip127(40000+k), 0)
			x := &xfer{c: c, r: r, peer: peer, to: h.addr, hash: f.hash, index: f.have[0], want: want, cap: 1 + r.IntN(6), pol: ackSlow}
			x.slowFor = time.Duration(c.N(14, 30)+r.IntN(c.N(12, 60))) * time.Second
			x.gap = min(max(x.slowFor/time.Duration(x.total()), 300*time.Millisecond)+time.Duration(r.IntN(1500))*time.Millisecond, 3500*time.Millisecond)
			began := time.Now()
			ok := x.run()
			peer.close()
			if x.failed || ok {
				c.Eval(fmt.Sprintf("slow %d %d %d", len(want), x.cap, k))
				c.Obs("transfers with slow acks", 1)
				c.ObsMax("seconds of the longest transfer", int(time.Since(began).Seconds()))
				return
			}
		}
		c.Obs("slow transfers without a verdict", 1)
	})
}

// c01History uploads chunks of files that come, go, change and come back on the same paths.
func c01History(c *Ctx, k int) {
	if c.Failed() > 10 {
		return
	}
	r := c.Rng("history", k)
	st := newStore(c)
	defer c.rm(filepath.Dir(st.Dir))
	h := newHost(c, st, 0)
	defer h.close()
	size, chunk := 1+r.IntN(20000), 1+r.IntN(6000)
	n := chunkCount(int64(size), chunk)
	if n > 200 {
		chunk = size/200 + 1
		n = chunkCount(int64(size), chunk)
	}
	user := filepath.Join(filepath.Dir(st.Dir), "user", "f")
	var files []*chunkFile // what is there now
	for step := 0; step < 14; step++ {
		if i := r.IntN(3); len(files) > i { // replace one by other content of the same length
			f := files[i]
			if err := st.Cat.UnshareFile(sha(f.hash)); err != nil {
				c.Fail("unshare", nil, "%v", err)
				return
			}
			os.Remove(f.path)
			files = append(files[:i], files[i+1:]...)
		}
		data := randBytes(r, size)
		f := &chunkFile{hash: sum(data), data: data, chunk: chunk, path: user}
		if _, err := os.Stat(user); err == nil || r.IntN(2) == 0 {
			p, err := st.seed(data, chunk, "same name", []int{})
			if err != nil {
				c.Fail("seed", nil, "%v", err)
				return
			}
			f.path = p
			f.have = randHave(r, n)
			for _, i := range f.have {
				if err := st.Cat.SaveChunk(sha(f.hash), uint16(i), chunkOf(data, chunk, i)); err != nil {
					c.Fail("seed", nil, "%v", err)
					return
				}
			}
		} else {
			write(user, data)
			if _, err := st.Cat.ShareFile(user); err != nil {
				c.Fail("share", nil, "%v", err)
				return
			}
			f.chunk = defaultChunk
			f.have = []int{0}
		}
		files = append(files, f)
		for t := 0; t < 4; t++ {
			f := files[r.IntN(len(files))]
			if f.chunk == chunk && len(f.have) < n && r.IntN(2) == 0 { // one more
				i := r.IntN(n)
				if err := st.Cat.SaveChunk(sha(f.hash), uint16(i), chunkOf(f.data, chunk, i)); err == nil {
					f.have = append(f.have, i)
				}
			}
			if len(f.have) == 0 {
				continue
			}
			i := f.have[r.IntN(len(f.have))]
			peer := newSock(ip127(k), 0)
			x := &xfer{c: c, r: r, peer: peer, to: h.addr, hash: f.hash, index: i, want: chunkOf(f.data, f.chunk, i), cap: randCap(r), pol: ackPolicy(r.IntN(int(ackPolicies)))}
			ok := x.run()
			peer.close()
			if x.failed {
				return
			}
			if ok {
				c.Obs("transfers of files that replaced others", 1)
				c.Eval(fmt.Sprintf("history %d %d %d", k, step, t))
			}
		}
	}
}

func c29(c *Ctx) {
	c.Rule(`A transfer of one chunk from the real server to a model downloader which counts packets and acks: never
		more packets than acks plus the window (one before the first ack), and always that many while data
		remains. It holds acks back until nothing more can come, sends them in other orders, and duplicates
		them. Distinct by file size, chunk size, index, window and policy.`)
	policies := []ackPolicy{ackHold, ackHold, ackNewest, ackTwice, ackTwice, ackRandom}
	transfers(c, c.N(6000, 150000), func(r *rand.Rand) ackPolicy { return policies[r.IntN(len(policies))] })
}

func c28(c *Ctx) {
	c.Rule(`A group of peers (addresses and ports, many ports on one address and the same port on many, also ones that differ in one bit) opens
		transfers of the same and of other chunks of one server at the same time, in rounds; some abandon theirs
		and open another from the same socket. Each must receive its own chunk exactly, within its own window.
		Then hundreds do so at once.
		Acks from sockets without a transfer must be refused. A transfer counts as distinct by group, peer and
		round.`)
	groups := c.N(100, 2500)
	Par(4, groups, func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("group", k)
		base := c.Dir("g")
		st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
		if err != nil {
			c.Fail("open-fails", nil, "%v", err)
			return
		}
		defer c.rm(base)
		var files []*chunkFile
		for i := 0; i < 6; i++ {
			chunk := 800 + r.IntN(9000)
			data := randBytes(r, 1+r.IntN(chunk*5))
			p, err := st.seed(data, chunk, fmt.Sprint("f", i), nil)
			if err != nil {
				c.Fail("seed", nil, "%v", err)
				return
			}
			files = append(files, &chunkFile{hash: sum(data), data: data, chunk: chunk, path: p})
		}
		h := newHost(c, st, 0)
		defer h.close()
		peers := 12
		var wg sync.WaitGroup
		samePort := 0
		// some differ from others in one bit of their port or address
		portBase, ipBase := 20000+r.IntN(10000), [4]byte{127, byte(1 + r.IntN(250)), byte(r.IntN(250)), byte(2 + r.IntN(250))}
		near := func(p int) (string, int) {
			if p%2 == 0 {
				ip := ipBase
				if p > 0 {
					bit := k/2 + p*2
					ip[1+bit/8%3] ^= 1 << (bit % 8)
				}
				return net.IP(ip[:]).String(), portBase
			}
			return net.IP(ipBase[:]).String(), portBase ^ 1<<((k/2+p*5)%16)
		}
		for p := 0; p < peers; p++ {
			pr := rand.New(rand.NewPCG(r.Uint64(), 1))
			var peer *sock
			if k%2 == 1 {
				ip, port := near(p)
				conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip), Port: port})
				if err != nil { // the port is taken
					conn = listenUDP("udp4", ip, 0)
				}
				conn.SetReadBuffer(sockBuffer)
				peer = newSockOn(conn)
			} else if p < peers/2 {
				peer = newSock(ip127(k), 0) // many ports on one address
				if samePort == 0 {
					samePort = peer.addr.Port
				}
			} else {
				peer = newSock(ip127(k*16+p+1000), samePort) // one port on many addresses
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer peer.close()
				for round := 0; round < 5; round++ {
					f := files[pr.IntN(len(files))]
					idx := pr.IntN(f.count())
					x := &xfer{c: c, r: pr, peer: peer, to: h.addr, hash: f.hash, index: idx, want: chunkOf(f.data, f.chunk, idx), cap: randCap(pr), pol: ackPolicy(pr.IntN(int(ackPolicies)))}
					if pr.IntN(3) == 0 {
						x.pol = ackHold
						x.abandon = 1 + pr.IntN(x.total())
					}
					ok := x.run()
					if x.failed {
						return
					}
					if !ok {
						c.Obs("attempts without a verdict (the kernel dropped a packet, or no CPU)", 1)
						return
					}
					c.Eval(fmt.Sprintf("%d %d %d", k, p, round))
					c.Obs("packets received", x.recv)
					if x.abandon > 0 && !x.ended {
						c.Obs("transfers abandoned and opened anew", 1)
						if !quiet(x, h) {
							return
						}
					} else {
						c.Obs("transfers completed", 1)
						if !quiet(x, h) {
							return
						}
					}
				}
			}()
		}
		// meanwhile, acks from sockets that never opened anything, with ports and addresses like the others
		strangers := make([]*sock, 3)
		for i := range strangers {
			strangers[i] = newSock(ip127(k), 0)
		}
		stop := make(chan struct{})
		var sg sync.WaitGroup
		sg.Add(1)
		go func() {
			defer sg.Done()
			sr := rand.New(rand.NewPCG(uint64(k), 99))
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
				}
				s := strangers[sr.IntN(len(strangers))]
				if err := h.handle(encAck(uint32(sr.IntN(5000))), s.addr); err == nil {
					c.Fail("stray-ack", s.addr.String(), "an ack from an address and port without a transfer was accepted")
					return
				}
				c.Obs("stray acks refused", 1)
			}
		}()
		wg.Wait()
		close(stop)
		sg.Wait()
		for _, s := range strangers {
			if p, ok := s.next(0); ok {
				c.Fail("stray-packet", s.addr.String(), "a socket that opened no transfer received %s", clip(p.data, 40))
			}
			s.close()
		}
		if k%8 == 0 {
			c.Sample("group", map[string]any{"peers": peers, "rounds": 5, "same port": samePort})
		}
	})
	c28Crowd(c, c.N(700, 4000), 4)
	if c.Failed() == 0 {
		c28Crowd(c, c.N(1200, 3000), 1<<30) // all from one address
	}
}

// c28Crowd lets very many peers open transfers of one server, which all last for some seconds.
func c28Crowd(c *Ctx, n, perHost int) {
	r := c.Rng("crowd", n+perHost)
	st := newStore(c)
	var files []*chunkFile
	for i := 0; i < 8; i++ {
		chunk := 9000 + r.IntN(20000)
		data := randBytes(r, 1+r.IntN(chunk*5))
		p, err := st.seed(data, chunk, fmt.Sprint("f", i), nil)
		if err != nil {
			c.Fail("seed", nil, "%v", err)
			return
		}
		files = append(files, &chunkFile{hash: sum(data), data: data, chunk: chunk, path: p})
	}
	h := newHost(c, st, 0)
	defer h.close()
	var open, most, no atomic.Int64
	Par(n, n, func(k int) {
		pr := c.Rng(fmt.Sprint("crowd peer", n), k)
		peer := newSock(ip127(50000+k/perHost), 0)
		defer peer.close()
		f := files[pr.IntN(len(files))]
		idx := pr.IntN(f.count())
		x := &xfer{c: c, r: pr, peer: peer, to: h.addr, hash: f.hash, index: idx, want: chunkOf(f.data, f.chunk, idx), cap: 1 + pr.IntN(4), pol: ackSlow}
		x.gap, x.slowFor = 900*time.Millisecond, 4*time.Second
		if x.total() < 4 {
			return
		}
		if v := open.Add(1); v > most.Load() {
			most.Store(v)
		}
		if !x.run() {
			no.Add(1)
		}
		open.Add(-1)
		c.Eval(fmt.Sprintf("crowd %d %d %d", n, perHost, k))
	})
	c.ObsMax("most transfers of one server at once", int(most.Load()))
	c.Obs("attempts without a verdict (the kernel dropped a packet, or no CPU)", int(no.Load()))
}

// quiet waits until the sender owes nothing more on a transfer that is left where it is, so that what
// arrives later belongs to the next one.
//
// It also waits until all acks were handled: a late one would belong to the next transfer.
func quiet(x *xfer, h *Host) bool {
	for !x.failed {
		expect := x.acks + x.cap
		if x.acks == 0 {
			expect = 1
		}
		if x.recv >= min(expect, x.total()) || x.ended {
			break
		}
		p, ok := x.peer.next(10 * time.Second)
		if !ok {
			return false // reported by C29, if it is a stall
		}
		x.take(p)
	}
	return !x.failed && x.c.WaitFor(20*time.Second, func() bool { return int64(h.handledFrom(x.peer)) >= x.peer.sent.Load() })
}

func c27(c *Ctx) {
	c.Rule(`A transfer request for something that is not held (unknown file, missing chunk, chunk beyond the end,
		file truncated, made longer, deleted, unreadable or replaced, unshared) must return an error and send nothing: a
		following transfer of a held chunk from the same socket must begin with its own opening packet. Held
		chunks must be served, as soon as they are saved and until the file is unshared. Distinct by kind and
		shape.`)
	n := c.N(600, 15000)
	var delivered atomic.Int64
	Par(8, n, func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("case", k)
		base := c.Dir("s")
		defer c.rm(base)
		st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
		if err != nil {
			c.Fail("open-fails", nil, "%v", err)
			return
		}
		h := newHost(c, st, 0)
		defer h.close()
		peer := newSock(ip127(k), 0)
		defer func() { peer.close() }()
		known := randBytes(r, 50+r.IntN(900))
		if _, err := st.seed(known, 100+r.IntN(1000), "known", nil); err != nil {
			c.Fail("seed", nil, "%v", err)
			return
		}
		chunk := 1 + r.IntN(3000)
		data := randBytes(r, 1+r.IntN(chunk*6))
		count := chunkCount(int64(len(data)), chunk)
		hash := sum(data)
		held := map[int]bool{}
		var log []string
		complete := func(f []byte, chunk, i int, hash Hash) {
			x := &xfer{c: c, r: r, peer: peer, to: h.addr, hash: hash, index: i, want: chunkOf(f, chunk, i), cap: 1 + r.IntN(30), pol: ackEach}
			if !x.run() || x.failed {
				if x.failed {
					c.Fail("not-served", log, "a held chunk (%d of %d bytes in chunks of %d) is not served properly", i, len(f), chunk)
				}
				return
			}
			delivered.Add(1)
			if !quiet(x, h) { // start over with another socket
				peer.close()
				peer = newSock(ip127(k), 0)
			}
		}
		sentinel := func() {
			rec, err := st.Cat.Contains(sha(sum(known)))
			if err != nil {
				c.Fail("sentinel", log, "%v", err)
				return
			}
			complete(known, rec.ChunkSize, 0, sum(known))
		}
		refused := func(what string, hash Hash, i int) {
			var err error
			from := peer.addr
			if !c.Await("open", log, func() { err = h.handle(encOpen(hash, uint16(i), uint16(1+r.IntN(2000))), from) }) {
				return
			}
			log = append(log, fmt.Sprintf("request for %s: %v", what, err))
			c.Eval(fmt.Sprintf("%s %d %d %d", what, len(data), chunk, i))
			c.Obs("refused: "+what, 1)
			if err == nil {
				c.Fail("no-error", log, "a request for %s was accepted", what)
				return
			}
			if r.IntN(3) == 0 {
				if p, ok := peer.next(2 * time.Millisecond); ok {
					c.Fail("packet", log, "a request for %s was answered: %s", what, clip(p.data, 40))
				}
			}
		}
		served := func(i int) {
			log = append(log, fmt.Sprintf("request for held chunk %d", i))
			c.Obs("served", 1)
			complete(data, chunk, i, hash)
		}
		refused("an unknown file", hash, 0)
		refused("an unknown file", sum(randBytes(r, 9)), r.IntN(65536))
		refused("the blank hash", blankHash, 0)
		sentinel()
		rec, err := st.Cat.RegisterDownload(uint64(len(data)), uint32(count), uint32(chunk), sha(hash), "file")
		if err != nil {
			c.Fail("seed", nil, "%v", err)
			return
		}
		log = append(log, fmt.Sprintf("registered %d bytes in %d chunks", len(data), count))
		for step := 0; step < 14 && c.Failed() == 0; step++ {
			i := r.IntN(count)
			switch op := r.IntN(8); {
			case op <= 1:
				if !held[i] {
					refused("a chunk before it was saved", hash, i)
				}
				if err := st.Cat.SaveChunk(sha(hash), uint16(i), chunkOf(data, chunk, i)); err != nil {
					c.Fail("seed", log, "%v", err)
					return
				}
				held[i] = true
				log = append(log, fmt.Sprintf("saved chunk %d", i))
				served(i)
			case op == 2 && held[i]:
				served(i)
			case op <= 3:
				if !held[i] {
					refused("a missing chunk", hash, i)
				}
			case op == 4:
				refused("a chunk beyond the end", hash, min(65535, []int{count, count + 1, 65535, count + r.IntN(9), 64 * (count/64 + 1), 32768 + count}[r.IntN(6)]))
			case op == 5 && len(held) > 0:
				// the file changes on disk
				orig, err := readReg(rec.FilePath)
				must(err)
				cut := r.IntN(len(orig) + 1)
				what := ""
				check := func() {
					for j := range held {
						if hi := j*chunk + len(chunkOf(data, chunk, j)); what == "" {
							if hi > cut {
								refused("a chunk of a truncated file", hash, j)
							} else {
								served(j)
							}
						} else {
							refused(what, hash, j)
						}
					}
				}
				switch r.IntN(7) {
				case 6: // it grows, which leaves all chunks there, but the last with more behind it
					write(rec.FilePath, append(bytes.Clone(orig), randBytes(r, 1+r.IntN(2*chunk))...))
					log = append(log, "made longer")
					cut = len(orig)
					check = func() {
						for j := range held {
							if j < count-1 || len(data)%chunk == 0 {
								served(j)
								continue
							}
							other := newSock(ip127(k), 0)
							var err error
							c.Await("open", log, func() { err = h.handle(encOpen(hash, uint16(j), 5), other.addr) })
							want := chunkOf(data, chunk, j)
							wait := 20 * time.Second
							if err != nil {
								wait = 2 * time.Millisecond
							}
							if p, ok := other.next(wait); err == nil && ok {
								m, perr := wParse(p.data)
								if perr != nil || m.Type != tData || len(p.data) < 29 || !bytes.Equal(p.data[5:29], encOpening(sum(want), uint32(len(want)), nil)[5:]) {
									c.Fail("longer", log, "chunk %d of a file that grew is announced as %s, but it has %d bytes", j, clip(p.data, 40), len(want))
								}
							} else if ok {
								c.Fail("packet", log, "a refused request was answered: %s", clip(p.data, 40))
							}
							other.close()
							c.Obs("last chunks of files that grew", 1)
						}
					}
				case 0, 1:
					must(os.Truncate(rec.FilePath, int64(cut)))
					log = append(log, fmt.Sprintf("truncated to %d bytes", cut))
				case 2:
					what = "a deleted file"
					must(os.Remove(rec.FilePath))
				case 3:
					what = "a file replaced by a directory"
					must(os.Remove(rec.FilePath))
					must(os.Mkdir(rec.FilePath, 0755))
				case 4:
					what = "a file replaced by a pipe"
					must(os.Remove(rec.FilePath))
					must(syscall.Mkfifo(rec.FilePath, 0644))
				case 5:
					what = "a file replaced by a dangling link"
					must(os.Remove(rec.FilePath))
					must(os.Symlink(rec.FilePath+".nowhere", rec.FilePath))
				}
				check()
				must(os.RemoveAll(rec.FilePath))
				write(rec.FilePath, orig)
				log = append(log, "restored the file")
				for j := range held {
					served(j)
					break
				}
			case op == 6 && r.IntN(3) == 0:
				if err := st.Cat.UnshareFile(sha(hash)); err != nil {
					c.Fail("seed", log, "%v", err)
					return
				}
				log = append(log, "unshared")
				refused("an unshared file", hash, i)
				for j := range held {
					refused("an unshared file", hash, j)
				}
				held = map[int]bool{}
				if rec, err = st.Cat.RegisterDownload(uint64(len(data)), uint32(count), uint32(chunk), sha(hash), "file"); err != nil {
					c.Fail("seed", log, "%v", err)
					return
				}
				log = append(log, "registered again")
			default:
				sentinel()
			}
		}
		sentinel()
		// a shared file of one 4 MB chunk: 1 and more do not exist
		p := filepath.Join(base, "user.bin")
		write(p, append([]byte("shared"), data...))
		if _, err := st.Cat.ShareFile(p); err == nil {
			b, _ := os.ReadFile(p)
			log = append(log, "shared a file")
			complete(b, defaultChunk, 0, sum(b))
			refused("a chunk beyond the end of a shared file", sum(b), 1+r.IntN(65535))
		}
		empty := filepath.Join(base, "empty.bin")
		write(empty, nil)
		if _, err := st.Cat.ShareFile(empty); err == nil {
			refused("a chunk of an empty file", sum(nil), r.IntN(2))
		}
		sentinel()
		if k%40 == 0 {
			c.Sample("history", strings.Join(log, "; "))
		}
	})
	c.Obs("transfers of held chunks completed", int(delivered.Load()))
}
