package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/flu-network/client/cli"
)

func init() { register("C34", "exploration", c34) }

// heapNow is what is reachable, in bytes.
func heapNow() int64 {
	best := int64(1) << 62
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(10 * time.Millisecond) // for finalizers
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		best = min(best, int64(m.HeapAlloc))
	}
	return best
}

// load is one kind of work for a daemon. Nothing of it may be kept.
type load struct {
	name  string
	n     int   // per round
	limit int64 // bytes per piece of work that would be a leak, if it goes on
	par   int
	quick bool          // usually it is over at once
	wait  time.Duration // until the last of it has timed out
	run   func(k int)   // each with a k of its own
	after func()
}

// grows runs rounds of a load until one leaves nothing behind. The first ones may fill what is reused.
func grows(c *Ctx, l *load) {
	const rounds = 4
	var sizes []int64
	k0 := 0
	start := time.Now()
	defer func() { c.ObsMax("seconds for "+l.name, int(time.Since(start).Seconds())) }()
	for round := 0; round < rounds && c.Failed() == 0; round++ {
		Par(l.par, l.n, func(k int) { l.run(k0 + k) })
		k0 += l.n
		if l.after != nil {
			l.after()
		}
		c.Obs(l.name, l.n)
		var now int64
		last := int64(0)
		if round > 0 {
			last = sizes[round-1]
		}
		end := time.Now().Add(l.wait)
		if round == 0 && l.quick {
			end = time.Now().Add(l.wait / 8)
		}
		for {
			now = heapNow()
			c.Beat()
			if round > 0 && now-last < l.limit*int64(l.n) || time.Now().After(end) {
				break
			}
			time.Sleep(300 * time.Millisecond)
		}
		sizes = append(sizes, now)
		if round > 0 && now-last < l.limit*int64(l.n) {
			c.Obs("rounds that left nothing behind", 1)
			c.ObsMax("most bytes kept after a round of "+l.name, int(now-last))
			c.Eval(l.name)
			c.Sample("bytes in use after each round of "+l.name, sizes)
			return
		}
	}
	if c.Failed() > 0 {
		return
	}
	c.Fail("kept: "+l.name, map[string]any{"per round": l.n, "bytes in use after each round": sizes},
		"%d bytes are in use after %d %s, %d more than after %d, and so on", sizes[rounds-1], rounds*l.n, l.name, sizes[rounds-1]-sizes[rounds-2], (rounds-1)*l.n)
}

// address is one of very many addresses and ports.
func address(k int) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(127, byte(10+k>>16%100), byte(k>>8), byte(k)).To4(), Port: 1024 + k*7%60000}
}

func c34(c *Ctx) {
	c.Rule(`Rounds of thousands of requests of one kind from ever new addresses and with ever new IDs, names and hashes (discoveries and listings of
		others and of its own, answered or not; stray replies, acks and garbage; uploads completed, abandoned, refused and replaced;
		downloads completed or given up and then unshared; shares, saves, cleans and unshares), each followed by garbage collections.
		A kind of request of which every round (up to four) leaves more bytes in use than the one before is kept in memory. Distinct by kind.`)
	c.Assume("what is kept of each of thousands of requests shows as bytes in use after garbage collection")
	r := c.Rng("memory", 0)
	st := newStore(c)
	nobody := listenUDP("udp4", ip127(901), 0)
	defer nobody.Close()
	h := newHostAs(c, st, 0, nobody.LocalAddr().(*net.UDPAddr).Port) // replies to discoveries go there
	defer h.close()
	user := filepath.Join(filepath.Dir(st.Dir), "user")
	must(os.MkdirAll(user, 0755))
	data := randBytes(r, 30000)
	if _, err := st.seed(data, 3000, "seeded", nil); err != nil {
		c.Fail("seed", nil, "%v", err)
		return
	}
	partial := randBytes(r, 30000)
	if _, err := st.seed(partial, 100, "partial", []int{1, 5, 6, 7, 100}); err != nil {
		c.Fail("seed", nil, "%v", err)
		return
	}
	small := randBytes(r, 900)
	write(filepath.Join(user, "small"), small)
	if _, err := st.Cat.ShareFile(filepath.Join(user, "small")); err != nil {
		c.Fail("share", nil, "%v", err)
		return
	}
	m := cli.NewMethods(st.Cat, h.srv)
	known := []Hash{sum(data), sum(partial), sum(small), blankHash}
	seedOf := r.Uint64()
	hashOf := func(k int) Hash {
		if k%2 == 0 {
			return known[k/2%len(known)]
		}
		return sum([]byte(fmt.Sprint(seedOf, k)))
	}
	guarded := func(kind string, f func(k int)) func(int) {
		return func(k int) {
			if c.Failed() == 0 {
				c.Guard("panic", kind, func() { f(k) })
			}
		}
	}
	scale := c.N(1, 12)
	loads := []*load{
		{name: "discovery requests", n: 20000 * scale, limit: 8, run: func(k int) {
			var chunks []uint16
			for i := 0; i < k%5; i++ {
				chunks = append(chunks, uint16(k%97), uint16(k%97+i))
			}
			h.handle(encDiscReq(uint16(k), hashOf(k), chunks), address(k))
		}},
		{name: "list requests", n: 20000 * scale, limit: 8, run: func(k int) {
			h.handle(encListReq(uint16(k), hashOf(k)), address(k))
		}},
		{name: "replies that nobody asked for", n: 60000 * scale, limit: 8, run: func(k int) {
			a := address(k)
			h.handle(encDiscResp(uint16(k), [4]byte(a.IP), uint16(a.Port), []uint16{0, uint16(k)}), a)
			h.handle(encListResp(uint16(k), []wFile{{Size: uint64(k), Count: 1, ChunkSize: 1 << 22, Hash: hashOf(k), Name: fmt.Sprint("file", k)}}), a)
		}},
		{name: "stray acks and garbage", n: 60000 * scale, limit: 8, run: func(k int) {
			a := address(k)
			h.handle(encAck(uint32(k)), a)
			b := append([]byte{byte(k % 9)}, fmt.Sprint("garbage", k, seedOf)...)
			h.handle(b[:k%len(b)+1], a)
		}},
		{name: "refused uploads", n: 20000 * scale, limit: 8, run: func(k int) {
			hash := hashOf(2*k + 1)
			chunk := k % 65536
			if k%3 == 0 {
				hash, chunk = sum(partial), 10+k%80
			}
			h.handle(encOpen(hash, uint16(chunk), uint16(k)), address(k))
		}},
		{name: "completed uploads", quick: true, n: 6000 * scale, limit: 16, wait: 30 * time.Second, par: 32, run: func(k int) {
			a := address(k)
			h.handle(encOpen(sum(small), 0, 5), a)
			h.handle(encAck(0), a)
		}},
		{name: "abandoned uploads", n: 3000 * scale, limit: 64, wait: 40 * time.Second, par: 32, run: func(k int) {
			h.handle(encOpen(sum(data), uint16(k%10), uint16(1+k%3)), address(k))
			if k%2 == 0 {
				h.handle(encAck(0), address(k))
			}
		}},
		{name: "uploads replaced by others", n: 6000 * scale, limit: 16, wait: 40 * time.Second, run: func(k int) {
			h.handle(encOpen(sum(data), uint16(k%10), 2), address(k%17))
		}},
		{name: "local requests", n: 1500 * scale, limit: 64, par: 1, run: func(k int) {
			name := fmt.Sprintf("file %d", k)
			p := filepath.Join(user, name)
			h := sum([]byte(name))
			switch k % 5 {
			case 0:
				write(p, []byte(name))
				if err := m.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}); err != nil {
					c.Fail("share", name, "%v", err)
				}
				m.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) // again
				if k%2 == 0 {
					os.Remove(p)
					m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{})
				} else if err := st.Cat.UnshareFile(sha(h)); err != nil {
					c.Fail("unshare", name, "%v", err)
				}
				os.Remove(p)
			case 1:
				chunk := 1 + k%9
				rec, err := st.Cat.RegisterDownload(uint64(len(name)), uint32(chunkCount(int64(len(name)), chunk)), uint32(chunk), sha(h), name)
				if err != nil {
					c.Fail("register", name, "%v", err)
					return
				}
				for i := 0; i < chunkCount(int64(len(name)), chunk)-k%2; i++ {
					if err := st.Cat.SaveChunk(sha(h), uint16(i), chunkOf([]byte(name), chunk, i)); err != nil {
						c.Fail("save", name, "%v", err)
					}
				}
				if rd, err := st.Cat.GetChunkReader(sha(h), 0); err == nil {
					rd.Close()
				}
				st.Cat.Rehash(sha(h))
				st.Cat.MissingChunks(sha(h), 3)
				if err := st.Cat.UnshareFile(sha(h)); err != nil {
					c.Fail("unshare", name, "%v", err)
				}
				os.Remove(rec.FilePath)
			case 2:
				m.Share(&cli.ShareRequest{Filepath: p + " missing"}, &cli.ListItem{})
				m.Share(&cli.ShareRequest{Filepath: user}, &cli.ListItem{})
				st.Cat.UnshareFile(sha(h))
			case 3:
				m.List(&cli.ListRequest{}, &cli.ListResponse{})
				st.Cat.Contains(sha(h))
				st.Cat.FileComplete(sha(h))
				st.Cat.SaveChunk(sha(h), 0, []byte(name))
			case 4:
				st.Cat.RegisterDownload(10, 77, 0, sha(h), name)
				st.Cat.RegisterDownload(uint64(len(data)), 10, 3000, sha(sum(data)), name)
			}
		}, after: func() {
			// nor on disk
			des, _ := os.ReadDir(st.Dir)
			list, err := listing(st.Cat)
			if err != nil || len(list) != 3 || len(des) != 4 {
				c.Fail("files-kept", nil, "after everything was unshared again the catalogue has %d files in its directory for %d entries: %v %v", len(des), len(list), des, err)
			}
		}},
	}
	for _, l := range loads {
		if l.par == 0 {
			l.par = 8
		}
		l.run = guarded(l.name, l.run)
		grows(c, l)
	}
	c34Own(c, r, scale)
	c34Downloads(c, scale)
}

// c34Own has a server ask others.
func c34Own(c *Ctx, r *rand.Rand, scale int) {
	if c.Failed() > 0 {
		return
	}
	st := newStore(c)
	d := newDownOn(c, c.Dir("d"), st)
	defer d.lan.close()
	answering := newHost(c, newStore(c), 0)
	defer answering.close()
	d.lan.set(answering.addr)
	silent := listenUDP("udp4", ip127(900), 0)
	defer silent.Close()
	to := silent.LocalAddr().(*net.UDPAddr)
	grows(c, &load{name: "discoveries of its own", quick: true, n: 1200 * scale, par: 600, limit: 64, wait: 20 * time.Second, run: func(k int) {
		c.Await("discovery", k, func() { d.srv.DiscoverHosts(sha(blankHash), nil) })
	}})
	grows(c, &load{name: "listings of other hosts", quick: true, n: 800 * scale, par: 200, limit: 64, wait: 20 * time.Second, run: func(k int) {
		c.Await("listing", k, func() {
			a := answering.addr
			if k%4 == 0 {
				a = to
			}
			d.srv.ListFilesOnHost([4]byte(a.IP.To4()), uint16(a.Port), sha(blankHash))
		})
	}})
	grows(c, &load{name: "downloads of what nobody has", quick: true, n: 600 * scale, par: 300, limit: 64, wait: 20 * time.Second, run: func(k int) {
		c.Await("get", k, func() { d.srv.StartDownload(sha(sum([]byte(fmt.Sprint("none", k))))) })
	}})
}

// c34Downloads has one server download and unshare one file after another.
func c34Downloads(c *Ctx, scale int) {
	if c.Failed() > 0 {
		return
	}
	d := newDown(c)
	defer d.lan.close()
	const size, chunk = 60000, 30000
	content := func(k int) []byte { return randBytes(c.Rng("content", k), size) }
	sock := listenUDP("udp4", ip127(950), 0)
	defer sock.Close()
	hashes := make(chan map[Hash]int, 1)
	hashes <- map[Hash]int{}
	go func() { // a peer that keeps nothing either
		buf := make([]byte, 2000)
		rest := map[string][][]byte{}
		for {
			n, from, err := sock.ReadFromUDP(buf)
			if err != nil {
				return
			}
			m, err := wParse(buf[:n])
			if err != nil {
				continue
			}
			hs := <-hashes
			k, ok := hs[m.Hash]
			hashes <- hs
			switch {
			case m.Type == tListReq && ok:
				f := wFile{Size: size, Count: size / chunk, ChunkSize: chunk, Downloaded: size / chunk, Hash: m.Hash, Name: fmt.Sprintf("name %d", k)}
				sock.WriteToUDP(encListResp(m.ReqID, []wFile{f}), from)
			case m.Type == tOpen && ok && k%9 != 8: // some downloads never get anything
				pk := chunkPackets(chunkOf(content(k), chunk, int(m.Chunk)))
				rest[from.String()] = pk[1:]
				sock.WriteToUDP(pk[0], from)
			case m.Type == tAck:
				for _, b := range rest[from.String()] {
					sock.WriteToUDP(b, from)
				}
				delete(rest, from.String())
			}
		}
	}()
	d.lan.set(sock.LocalAddr().(*net.UDPAddr))
	grows(c, &load{name: "downloads that were unshared afterwards", quick: true, n: 18 * scale, par: 18, limit: chunk / 3, wait: 30 * time.Second, run: func(k int) {
		data := content(k)
		h := sum(data)
		hs := <-hashes
		hs[h] = k
		hashes <- hs
		chunkCounts.put(h, size/chunk)
		var err error
		for try := 0; try < 8; try++ {
			if c.Await("get", k, func() { err = d.srv.StartDownload(sha(h)) }); err == nil {
				break
			}
		}
		if err != nil {
			c.Obs("downloads that could not be requested", 1)
		} else if k%9 == 8 {
			time.Sleep(3 * time.Second)
			c.Obs("downloads given up", 1)
		} else if !c.WaitFor(240*time.Second, func() bool { ok, _ := d.complete(data); return ok }) {
			c.Obs("downloads that did not complete in time", 1)
		} else {
			c.Obs("downloads completed", 1)
		}
		rec, _ := d.st.Cat.Contains(sha(h))
		d.st.Cat.UnshareFile(sha(h))
		if rec != nil {
			os.Remove(rec.FilePath)
		}
		hs = <-hashes
		delete(hs, h)
		hashes <- hs
		c.Beat()
	}})
	d.stop()
}
