package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { register("C05", "exploration", c05) }

// attack is the context of one hostile transfer.
type attack struct {
	r     *rand.Rand
	p     *Peer
	to    *net.UDPAddr
	chunk int
	all   []byte // the file
	size  int    // its chunk size
	data  []byte // the chunk
	stop  func() bool
}

func (a *attack) send(b ...[]byte) {
	for _, x := range b {
		a.p.sock.send(a.to, x)
	}
}

func (a *attack) opening(size uint32) []byte {
	return encOpening(sum(a.data), size, a.data[:min(1000, len(a.data))])
}

type script struct {
	name   string
	forged bool // what is sent is consistent: it cannot be told from the truth before the end
	slow   bool // takes minutes
	run    func(a *attack)
}

// hostileScripts are what a sending peer does when a chunk is requested from it.
func hostileScripts() []script {
	var l []script
	add := func(name string, run func(a *attack)) { l = append(l, script{name: name, run: run}) }
	forge := func(name string, run func(a *attack)) { l = append(l, script{name: name, run: run, forged: true}) }
	for _, n := range []int{0, 1, 3, 4, 5, 6, 10, 24, 25, 27, 28, 29} {
		add(fmt.Sprintf("opener cut to %d bytes", n), func(a *attack) { a.send(a.opening(uint32(len(a.data)))[:n]) })
		add(fmt.Sprintf("opener cut to %d bytes, then the rest", n), func(a *attack) {
			pk := chunkPackets(a.data)
			a.send(pk[0][:min(n, len(pk[0]))])
			a.send(pk[1:]...)
		})
	}
	for _, size := range []func(n, c uint32) uint32{
		func(n, c uint32) uint32 { return 0 }, func(n, c uint32) uint32 { return 1 }, func(n, c uint32) uint32 { return n - 1 },
		func(n, c uint32) uint32 { return n + 1 }, func(n, c uint32) uint32 { return c }, func(n, c uint32) uint32 { return c + 1 },
		func(n, c uint32) uint32 { return 999 }, func(n, c uint32) uint32 { return 1 << 24 }, func(n, c uint32) uint32 { return 1<<31 - 1 },
		func(n, c uint32) uint32 { return 1 << 31 }, func(n, c uint32) uint32 { return 1<<32 - 1 },
	} {
		size := size
		name := fmt.Sprint(size(1000000, 2000000))
		add("announces "+name+" for 1000000 of 2000000 bytes, then data", func(a *attack) {
			pk := chunkPackets(a.data)
			pk[0] = a.opening(size(uint32(len(a.data)), uint32(a.size)))
			a.send(pk...)
		})
	}
	// lengths that differ from the chunk's, with a hash that fits
	for _, d := range []int{-1, -7, -1000000, 1, 7, 1000000} {
		add(fmt.Sprintf("consistent, but %d bytes longer", d), func(a *attack) {
			n := max(0, min(len(a.data)+d, a.size))
			if n == len(a.data) {
				n = max(0, len(a.data)-1) // a full chunk has no room for more
			}
			b := append(append([]byte{}, a.data...), bytes.Repeat([]byte{0xEE}, a.size)...)[:n]
			a.send(chunkPackets(b)...)
		})
		add(fmt.Sprintf("consistent and beyond a chunk's size by %d", d), func(a *attack) {
			b := append(append([]byte{}, a.data...), bytes.Repeat([]byte{0xEE}, 2*a.size)...)[:a.size+max(1, d%2000)]
			a.send(chunkPackets(b)...)
		})
	}
	for _, off := range []func(n uint32) uint32{
		func(n uint32) uint32 { return n }, func(n uint32) uint32 { return n - 1 }, func(n uint32) uint32 { return n + 1 }, func(n uint32) uint32 { return n + 100000 },
		func(n uint32) uint32 { return 1<<31 - 1 }, func(n uint32) uint32 { return 1 << 31 }, func(n uint32) uint32 { return 1<<32 - 1 }, func(n uint32) uint32 { return 1<<32 - 1000 },
	} {
		name := fmt.Sprint(off(1000000))
		add("data at offset "+name+" of 1000000", func(a *attack) {
			pk := chunkPackets(a.data)
			a.send(pk[0], encData(off(uint32(len(a.data))), bytes.Repeat([]byte{0xEE}, 1024)))
			a.send(pk[1:]...)
		})
		add("an empty packet at offset "+name+" of 1000000", func(a *attack) {
			pk := chunkPackets(a.data)
			a.send(pk[0], encData(off(uint32(len(a.data))), nil))
			a.send(pk[1:]...)
		})
	}
	add("data before the opener", func(a *attack) { pk := chunkPackets(a.data); a.send(pk[len(pk)-2], pk[0]); a.send(pk[1:]...) })
	add("end marker first", func(a *attack) { pk := chunkPackets(a.data); a.send(pk[len(pk)-1], pk[0]) })
	add("end marker at 0 first", func(a *attack) { a.send(encData(0, nil)); a.send(chunkPackets(a.data)...) })
	add("end marker at 0 within", func(a *attack) { pk := chunkPackets(a.data); a.send(pk[0], encData(0, nil)); a.send(pk[1:]...) })
	add("end marker at 1 first", func(a *attack) { a.send(encData(1, nil)); a.send(chunkPackets(a.data)...) })
	add("end marker early", func(a *attack) {
		pk := chunkPackets(a.data)
		if len(pk) > 2 {
			pk = append(pk[:1], pk[len(pk)-1])
		} else {
			pk[0] = pk[0][:len(pk[0])-1]
		}
		a.send(pk...)
	})
	add("no end marker", func(a *attack) { pk := chunkPackets(a.data); a.send(pk[:len(pk)-1]...) })
	add("a packet is missing", func(a *attack) {
		pk := chunkPackets(a.data)
		i := a.r.IntN(len(pk) - 1)
		a.send(append(pk[:i:i], pk[i+1:]...)...)
	})
	add("a packet is replaced", func(a *attack) {
		pk := chunkPackets(a.data)
		i := a.r.IntN(len(pk) - 1)
		b := append([]byte{}, pk[i]...)
		for k := 5; k < len(b); k++ {
			if i > 0 || k >= 29 {
				b[k] = 0xEE
			}
		}
		pk[i] = b
		a.send(pk...)
	})
	add("a second opener announces less", func(a *attack) {
		pk := chunkPackets(a.data)
		a.send(pk[0], encOpening(sum(a.data[:1]), 1, a.data[:1]))
		a.send(pk[1:]...)
	})
	add("a second opener with another file's chunk of the same size is cut off", func(a *attack) {
		pk := chunkPackets(a.data)
		a.send(pk[:len(pk)-1]...)
		fake := bytes.Repeat([]byte{0xEE}, len(a.data))
		a.send(encOpening(sum(a.data), uint32(len(fake)), fake[:min(1000, len(fake))]), pk[len(pk)-1])
	})
	add("the same opener for ever", func(a *attack) {
		for i := 0; i < 3000 && !a.stop(); i++ {
			a.send(a.opening(uint32(len(a.data))))
		}
	})
	add("an opener with more data than announced", func(a *attack) {
		a.send(encOpening(sum(a.data[:1]), 1, bytes.Repeat([]byte{0xEE}, 1000)), encData(1, nil))
		a.send(encOpening(sum(nil), 0, bytes.Repeat([]byte{0xEE}, 1000)), encData(1, nil))
	})
	add("nothing", func(a *attack) {})
	add("messages of other types", func(a *attack) {
		a.send(encAck(0), encDiscReq(1, sum(nil), nil), encListReq(1, sum(nil)), encOpen(sum(nil), 0, 1), encDiscResp(1, [4]byte{1, 2, 3, 4}, 5, nil), []byte{7}, []byte{255, 0, 0, 0, 0, 1})
	})
	for typ := 0; typ < 9; typ++ {
		add(fmt.Sprintf("an honest transfer under message type %d", typ+7*(typ/5)), func(a *attack) {
			for _, b := range chunkPackets(a.data) {
				b[0] = byte(typ + 7*(typ/5))
				if b[0] == tData {
					b[0] = 77
				}
				a.send(b)
			}
		})
	}
	add("oversized datagrams", func(a *attack) {
		a.send(encOpening(sum(a.data), uint32(len(a.data)), bytes.Repeat(a.data[:1], 60000)))
		a.send(encData(1000, bytes.Repeat([]byte{0xEE}, 65000)), encData(uint32(len(a.data)), nil))
	})
	add("a flood of random datagrams", func(a *attack) {
		for i := 0; i < 6000 && !a.stop(); i++ {
			a.send(randBytes(a.r, a.r.IntN(1400)))
		}
	})
	add("a flood of random data packets", func(a *attack) {
		a.send(a.opening(uint32(len(a.data))))
		for i := 0; i < 6000 && !a.stop(); i++ {
			a.send(encData(a.r.Uint32N(uint32(len(a.data))*2+1), randBytes(a.r, a.r.IntN(1100))))
		}
	})
	add("data repeated after the end", func(a *attack) {
		pk := chunkPackets(a.data)
		a.send(a.opening(uint32(len(a.data)) - 1))
		for i := 0; i < 20; i++ {
			a.send(pk...)
			a.send(encData(uint32(a.r.IntN(len(a.data))), []byte{0xEE, 0xEE}))
		}
	})
	add("packets that overlap the end", func(a *attack) {
		n := len(a.data)
		a.send(a.opening(uint32(n)))
		for d := -3; d <= 0; d++ {
			a.send(encData(uint32(n+d), bytes.Repeat([]byte{0xEE}, 1024)))
		}
		a.send(encData(uint32(n), nil))
	})
	add("trickle of data", nil)
	l[len(l)-1].slow, l[len(l)-1].run = true, func(a *attack) {
		a.send(a.opening(uint32(len(a.data))))
		for i := 0; !a.stop() && i < 400; i++ {
			a.send(encData(1, []byte{0xEE}))
			time.Sleep(3 * time.Second)
		}
	}
	add("trickle of openers", nil)
	l[len(l)-1].slow, l[len(l)-1].run = true, func(a *attack) {
		for i := 0; !a.stop() && i < 400; i++ {
			a.send(a.opening(uint32(len(a.data))))
			time.Sleep(3 * time.Second)
		}
	}
	trickle := func(name string, opener bool, next func(a *attack, i int) []byte) {
		add("trickle of "+name, nil)
		l[len(l)-1].slow, l[len(l)-1].run = true, func(a *attack) {
			if opener {
				a.send(a.opening(uint32(len(a.data))))
			}
			for i := 0; !a.stop() && i < 400; i++ {
				a.send(next(a, i))
				time.Sleep(3 * time.Second)
			}
		}
	}
	for _, opener := range []bool{false, true} {
		after := map[bool]string{false: " without an opener", true: " after an opener"}[opener]
		trickle("empty datagrams"+after, opener, func(a *attack, i int) []byte { return nil })
		trickle("garbage"+after, opener, func(a *attack, i int) []byte { return randBytes(a.r, 1+a.r.IntN(1200)) })
		trickle("other messages"+after, opener, func(a *attack, i int) []byte {
			return [][]byte{encAck(0), encDiscReq(1, sum(a.all), nil), encListReq(2, sum(a.all)), encOpen(sum(a.all), 0, 7)}[i%4]
		})
		trickle("data beyond the end"+after, opener, func(a *attack, i int) []byte {
			return encData(uint32(len(a.data)+1+i), randBytes(a.r, 100))
		})
	}
	trickle("data without an opener", false, func(a *attack, i int) []byte { return encData(uint32(1000+1024*i), randBytes(a.r, 1024)) })
	trickle("end markers without an opener", false, func(a *attack, i int) []byte { return encData(uint32(len(a.data)), nil) })
	forge("another chunk's bytes", func(a *attack) { a.send(chunkPackets(bytes.Repeat([]byte{0xAB}, len(a.data)))...) })
	for i := 0; i < 30; i++ {
		add(fmt.Sprintf("mutated transfer %d", i), mutatedTransfer)
	}
	return l
}

// mutatedTransfer sends the packets of an honest transfer with random damage that does not leave it as
// it was.
func mutatedTransfer(a *attack) {
	r := a.r
	pk := chunkPackets(a.data)
	for n := 1 + r.IntN(5); n > 0; n-- {
		i := r.IntN(len(pk))
		switch r.IntN(7) {
		case 0:
			pk[i] = pk[i][:r.IntN(len(pk[i])+1)]
		case 1:
			b := append([]byte{}, pk[i]...)
			for k := 0; k < 1+r.IntN(4) && len(b) > 0; k++ {
				b[r.IntN(len(b))] ^= byte(1 + r.IntN(255))
			}
			pk[i] = b
		case 2:
			b := append([]byte{}, pk[i]...)
			copy(b, randBytes(r, min(len(b), 5)))
			pk[i] = b
		case 3:
			pk = append(pk, pk[i])
		case 4:
			r.Shuffle(len(pk), func(x, y int) { pk[x], pk[y] = pk[y], pk[x] })
		case 5:
			pk[i] = append(append([]byte{}, pk[i]...), randBytes(r, r.IntN(30))...)
		case 6:
			pk = append(pk[:i:i], append([][]byte{randBytes(r, r.IntN(60))}, pk[i:]...)...)
		}
	}
	a.send(pk...)
}

// listScript is a hostile reply to a file-list request. It returns the datagrams to send.
type listScript struct {
	name  string
	reply func(r *rand.Rand, id uint16, honest wFile) [][]byte
}

func hostileLists() []listScript {
	var l []listScript
	raw := func(name string, f func(r *rand.Rand, id uint16, h wFile) []byte) {
		l = append(l, listScript{name, func(r *rand.Rand, id uint16, h wFile) [][]byte { return [][]byte{f(r, id, h)} }})
	}
	entry := func(name string, f func(h *wFile)) {
		raw(name, func(r *rand.Rand, id uint16, h wFile) []byte {
			f(&h)
			return encListResp(id, []wFile{h})
		})
	}
	raw("nothing at all", func(r *rand.Rand, id uint16, h wFile) []byte { return nil })
	for i := 0; i < 4; i++ {
		raw(fmt.Sprintf("garbage %d", i), func(r *rand.Rand, id uint16, h wFile) []byte { return randBytes(r, r.IntN(1500)) })
	}
	for i := 0; i < 60; i += 3 {
		raw(fmt.Sprintf("cut to %d bytes", i), func(r *rand.Rand, id uint16, h wFile) []byte {
			b := encListResp(id, []wFile{h})
			return b[:min(i, len(b)-1)]
		})
	}
	raw("no files", func(r *rand.Rand, id uint16, h wFile) []byte { return encListResp(id, nil) })
	raw("the file twice", func(r *rand.Rand, id uint16, h wFile) []byte { return encListResp(id, []wFile{h, h}) })
	raw("another file", func(r *rand.Rand, id uint16, h wFile) []byte { h.Hash[3] ^= 1; return encListResp(id, []wFile{h}) })
	raw("the blank hash", func(r *rand.Rand, id uint16, h wFile) []byte { h.Hash = blankHash; return encListResp(id, []wFile{h}) })
	raw("65535 files announced", func(r *rand.Rand, id uint16, h wFile) []byte {
		b := encListResp(id, []wFile{h})
		b[3], b[4] = 255, 255
		return b
	})
	raw("60000 bytes of files", func(r *rand.Rand, id uint16, h wFile) []byte {
		fs := make([]wFile, 900)
		for i := range fs {
			fs[i] = h
		}
		return encListResp(id, fs)
	})
	for typ := 0; typ < 8; typ++ {
		if typ != tListResp {
			raw(fmt.Sprintf("message type %d", typ), func(r *rand.Rand, id uint16, h wFile) []byte {
				switch typ {
				case tDiscReq:
					return encDiscReq(id, h.Hash, nil)
				case tDiscResp:
					return encDiscResp(id, [4]byte{1, 2, 3, 4}, 5, []uint16{1})
				case tListReq:
					return encListReq(id, h.Hash)
				case tOpen:
					return encOpen(h.Hash, 0, 1)
				}
				return append([]byte{byte(typ)}, encListResp(id, []wFile{h})[1:]...)
			})
		}
	}
	for _, size := range []uint64{0, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1<<64 - 4096} {
		entry(fmt.Sprintf("size %d", size), func(h *wFile) { h.Size = size })
		entry(fmt.Sprintf("size %d in huge chunks", size), func(h *wFile) { h.Size, h.ChunkSize = size, 1<<32-1 })
	}
	for _, cs := range []uint32{0, 1, 1 << 31, 1<<32 - 1} {
		entry(fmt.Sprintf("chunk size %d", cs), func(h *wFile) { h.ChunkSize = cs })
		entry(fmt.Sprintf("chunk size %d of 65537 bytes", cs), func(h *wFile) { h.ChunkSize, h.Size = cs, 65537 })
	}
	entry("count 0", func(h *wFile) { h.Count = 0 })
	entry("count 2^32-1", func(h *wFile) { h.Count = 1<<32 - 1 })
	entry("nothing downloaded", func(h *wFile) { h.Downloaded = 0 })
	entry("size 0 and chunk size 0", func(h *wFile) { h.Size, h.ChunkSize, h.Count = 0, 0, 0 })
	for _, name := range hostileNames("/nonexistent") {
		entry(fmt.Sprintf("name %q", name), func(h *wFile) { h.Name = name })
	}
	return l
}

// hostileNames are names a peer might send.
func hostileNames(base string) []string {
	return []string{"", ".", "..", "../user/shared.bin", "../up.bin", "../../up.bin", base + "/user/abs.bin", base + "/up.bin", "/", "//", "a/b", "a/../b", "./c", "sub/", "user/../../x",
		"..\x00", "nul\x00byte", "\x00", "~/home.bin", "new\nline", "..\\up.bin", "C:\\x", "bad\xff\xfe", strings.Repeat("n", 255), strings.Repeat("n", 251) + ".bin",
		"index.json", " ", "-rf", "...", ".. ", "$HOME", "%2e%2e%2fx", "..;", "\u2024\u2024/x", "$(touch x)", "CON", "\x7f\x1b[31m"}
}

// hostileLab is a downloading host with things that must not be touched.
type hostileLab struct {
	c       *Ctx
	d       *Down
	kase    map[string]any
	before  Tree // of the user's files
	partial []byte
	pChunk  int
	have    []int
	oData   []byte
	oPeer   *Peer
	pName   string
}

func newHostileLab(c *Ctx, r *rand.Rand, kase map[string]any, ip string, slow bool) *hostileLab {
	d := newDown(c)
	l := &hostileLab{c: c, d: d, kase: kase}
	shared := filepath.Join(d.base, "user", "shared.bin")
	write(shared, randBytes(r, 5000))
	write(filepath.Join(d.base, "user", "private.txt"), randBytes(r, 300))
	write(filepath.Join(d.base, "up.bin"), randBytes(r, 100))
	write(filepath.Join(d.base, "down", "leftover.bin"), randBytes(r, 4000))
	if _, err := d.st.Cat.ShareFile(shared); err != nil {
		c.Fail("share", kase, "%v", err)
	}
	l.pChunk = 700
	l.partial = randBytes(r, 4*l.pChunk-50)
	l.have = []int{0, 2}
	p, err := d.st.seed(l.partial, l.pChunk, "partial.bin", l.have)
	if err != nil {
		c.Fail("seed", kase, "%v", err)
	}
	l.pName = filepath.Base(p)
	l.before = l.others("")
	l.oData = randBytes(r, 2500)
	if slow {
		l.oData = l.oData[:1100]
	}
	l.oPeer = newPeer(ip)
	l.oPeer.serve(sum(l.oData), l.oData, 1200, "other.bin")
	return l
}

// others is everything in the lab but the catalogue and the files of the two running downloads.
func (l *hostileLab) others(except ...string) Tree {
	t := tree(l.d.base, treeContent|treeTimes)
	for k := range t {
		if k == "cat" || strings.HasPrefix(k, "cat/") || k == "down" {
			delete(t, k)
		}
		for _, e := range except {
			if e != "" && filepath.Join(l.d.base, k) == e {
				delete(t, k)
			}
		}
	}
	return t
}

// intact checks everything that the attacks must leave alone.
func (l *hostileLab) intact(paths ...string) {
	if diff := l.others(paths...).diff(l.before); len(diff) > 0 {
		l.c.Fail("files", l.kase, "files that have nothing to do with the download changed: %v", diff)
	}
	rec, err := l.d.st.Cat.Contains(sha(sum(l.partial)))
	if err != nil {
		l.c.Fail("catalogue", l.kase, "another download's entry is gone: %v", err)
		return
	}
	for i := 0; i < 4; i++ {
		if want := i == 0 || i == 2; rec.Progress.Get(uint64(i)) != want {
			l.c.Fail("catalogue", l.kase, "chunk %d of another download became available: %v", i, !want)
		}
	}
	// the catalogue's directory holds the index and the progress of its entries, and nothing else
	list, err := listing(l.d.st.Cat)
	if err != nil {
		l.c.Fail("catalogue", l.kase, "%v", err)
		return
	}
	des, _ := os.ReadDir(filepath.Join(l.d.base, "cat"))
	for _, de := range des {
		if _, ok := list[de.Name()]; !ok && de.Name() != "index.json" && !strings.Contains(de.Name(), "tmp") {
			l.c.Fail("catalogue", l.kase, "the catalogue's directory has a file %q", de.Name())
		}
	}
}

// targetBytes checks that a partly downloaded file holds nothing but true bytes where there is something.
func targetBytes(path string, data []byte, chunk int, forged map[int]bool) string {
	got, err := readReg(path)
	if err != nil {
		return "" // not there yet
	}
	if len(got) > len(data) {
		return fmt.Sprintf("the file has %d bytes, more than its %d", len(got), len(data))
	}
	for i := range got {
		if got[i] != data[i] && got[i] != 0 && !forged[i/chunk] {
			return fmt.Sprintf("byte %d (of chunk %d) is %02x, which is neither the file's byte nor nothing", i, i/chunk, got[i])
		}
	}
	return ""
}

// hostile adds replies to discoveries that no honest host would send. Peer number who is always asked, but says odd things.
func (l *LAN) hostile(r *rand.Rand, addr *net.UDPAddr, who int, chunks uint16) {
	l.mu.Lock()
	defer l.mu.Unlock()
	odd := [][]uint16{{}, {0}, {7}, {chunks - 1, 0}, {0, 65535}, {65535, 65535}, {1, 1, 1}, {0, chunks - 1, 3}, {0, 0, 0, 0}}
	long := make([]uint16, 255)
	for i := range long {
		long[i] = uint16(r.Uint32())
	}
	odd = append(odd, long, long[:254], long[:3])
	addrs := [][4]byte{[4]byte(addr.IP.To4()), [4]byte(addr.IP.To4()), {0, 0, 0, 0}, {10, 77, 0, 1}, {127, 0, 0, 1}}
	l.lies = func(peer int, id uint16) []byte {
		if peer != who || r.IntN(3) == 0 {
			return nil
		}
		b := encDiscResp(id, [4]byte(addr.IP.To4()), uint16(addr.Port), append([]uint16{0, chunks - 1}, odd[r.IntN(9)]...))
		return append(b, make([]byte, r.IntN(2)*r.IntN(900))...)
	}
	l.extra = func(id uint16) (out [][]byte) {
		for n := r.IntN(4); n > 0; n-- {
			a := r.IntN(len(addrs))
			port := []uint16{0, 1, 9, uint16(addr.Port)}[r.IntN(4)]
			if a < 2 && port > 0 {
				port = uint16(addr.Port)
			}
			b := encDiscResp(id, addrs[a], port, odd[r.IntN(len(odd))])
			switch r.IntN(6) {
			case 0:
				b = b[:len(b)-1]
			case 1:
				b = append(b, randBytes(r, r.IntN(500))...)
			}
			out = append(out, b)
		}
		return
	}
}

func c05(c *Ctx) {
	c.Rule(`A download by the real server from a scripted hostile peer: each transfer script (short and lying openers, bad
		offsets, early, missing and repeated packets, wrong types, floods, silence, trickles, mutated transfers, forged
		chunks) and each file-list reply (garbage, cut, wrong types, absurd sizes and names), together with discovery replies that say odd things, while another download runs
		from an honest peer and other files and a partial download lie around. Monitors: the process lives, calls return,
		the tree of other files is unchanged, the target holds only true bytes, held chunks stay, the other download
		completes, and so does this one when an honest peer takes over. Distinct by script, chunk and sizes.`)
	c.Assume("scripts announce at most 64 MB per chunk when the metadata allows it, to keep the sandbox's memory")
	scripts := hostileScripts()
	lists := hostileLists()
	type job struct {
		script *script
		list   *listScript
		n      int
	}
	var jobs []job
	for i := range scripts {
		if scripts[i].slow {
			jobs = append(jobs, job{script: &scripts[i]})
		}
	}
	for n := 0; n < c.N(1, 12); n++ {
		for i := range scripts {
			if !scripts[i].slow {
				jobs = append(jobs, job{script: &scripts[i], n: n})
			}
		}
		for i := range lists {
			jobs = append(jobs, job{list: &lists[i], n: n})
		}
	}
	Par(200, len(jobs), func(k int) {
		if c.Failed() > 10 {
			return
		}
		r := c.Rng("job", k)
		j := jobs[k]
		chunk := []int{300, 1000, 1500, 4000, 9000}[r.IntN(5)]
		chunks := 3
		data := randBytes(r, chunk*chunks-r.IntN(chunk-200))
		for i := range data {
			if data[i] == 0 || data[i] == 0xEE || data[i] == 0xAB {
				data[i] = 1 // so that nothing and forged bytes can be told from true ones
			}
		}
		kase := map[string]any{"size": len(data), "chunk size": chunk}
		lab := newHostileLab(c, r, kase, ip127(3*k+1), j.script != nil && j.script.slow)
		d := lab.d
		defer c.rm(d.base)
		defer d.lan.close()
		defer d.stop()
		defer lab.oPeer.close()
		hostile := newPeer(ip127(3 * k))
		defer hostile.close()
		honest := newPeer(ip127(3*k + 2))
		defer honest.close()
		honest.serve(sum(data), data, chunk, "target.bin")
		var mu sync.Mutex
		taken := false
		oh := sum(lab.oData)
		d.lan.only = func(peer *net.UDPAddr, h Hash) bool {
			mu.Lock()
			defer mu.Unlock()
			switch {
			case peer == lab.oPeer.sock.addr:
				return h == oh
			case peer == hostile.sock.addr:
				return !taken && h == sum(data)
			}
			return taken && h == sum(data)
		}
		d.lan.set(lab.oPeer.sock.addr, hostile.sock.addr, honest.sock.addr)
		d.lan.hostile(rand.New(rand.NewPCG(r.Uint64(), 6)), hostile.sock.addr, 1, uint16(chunks))
		takeOver := func() { mu.Lock(); taken = true; mu.Unlock() }
		if j.script != nil {
			kase["script"] = j.script.name
			lab.transferAttack(r, j.script, hostile, data, chunk, takeOver)
		} else {
			kase["list reply"] = j.list.name
			lab.listAttack(r, j.list, hostile, data, chunk, takeOver)
		}
		c.Eval(fmt.Sprint(kase))
		if k%40 == 0 {
			c.Sample("attack", kase)
		}
	})
}

func (l *hostileLab) oPath() string { return l.d.path(l.oData) }

func (l *hostileLab) startOther() {
	l.c.Await("download", l.kase, func() {
		if err := l.d.srv.StartDownload(sha(sum(l.oData))); err != nil {
			l.c.Fail("other", l.kase, "a download from an honest peer cannot be requested: %v", err)
		}
	})
}

func (l *hostileLab) otherCompletes(limit time.Duration) {
	var why string
	if !l.c.WaitFor(limit, func() (ok bool) { ok, why = l.d.complete(l.oData); return }) {
		l.c.Fail("other", l.kase, "a download from an honest peer does not complete within %v: %s", limit, why)
	}
}

func (l *hostileLab) transferAttack(r *rand.Rand, s *script, hostile *Peer, data []byte, chunk int, takeOver func()) {
	c, d := l.c, l.d
	hash := sum(data)
	held := map[int]bool{}
	name := "target.bin"
	if r.IntN(2) == 0 { // some chunks are there already
		i := r.IntN(2)
		if _, err := d.st.seed(data, chunk, name, []int{i}); err != nil {
			c.Fail("seed", l.kase, "%v", err)
			return
		}
		held[i] = true
	}
	l.kase["held before"] = fmt.Sprint(held)
	var over sync.Once
	stopped := make(chan struct{})
	defer over.Do(func() { close(stopped) })
	stop := func() bool {
		select {
		case <-stopped:
			return true
		default:
			return false
		}
	}
	played := make(chan int, 10000)
	forged := map[int]bool{}
	hostile.serve(hash, data, chunk, name) // for its listing
	hostile.onAck = nil
	var rmu sync.Mutex
	hostile.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if m.Hash != hash {
			return
		}
		rmu.Lock()
		a := &attack{r: rand.New(rand.NewPCG(r.Uint64(), 5)), p: p, to: from, chunk: int(m.Chunk), all: data, size: chunk, data: chunkOf(data, chunk, int(m.Chunk)), stop: stop}
		if s.forged {
			forged[int(m.Chunk)] = true
		}
		rmu.Unlock()
		go func() {
			s.run(a)
			played <- 1
		}()
		if s.slow {
			played <- 1
		}
	}
	if !c.Await("download", l.kase, func() {
		if err := d.srv.StartDownload(sha(hash)); err != nil {
			c.Fail("refused", l.kase, "the download cannot be requested: %v", err)
		}
	}) {
		return
	}
	l.startOther()
	// watch while the peer is hostile
	start := time.Now()
	n := 0
	limit := 7 * time.Second
	if s.slow {
		limit = 160 * time.Second
	}
	path := ""
	monitor := func() {
		if p := d.path(data); p != "" {
			path = p
		}
		rmu.Lock()
		f := map[int]bool{}
		for k := range forged {
			f[k] = true
		}
		rmu.Unlock()
		if path != "" {
			if what := targetBytes(path, data, chunk, f); what != "" {
				c.Fail("target", l.kase, "%s", what)
			}
		}
		if rec, err := d.st.Cat.Contains(sha(hash)); err == nil {
			for i := range held {
				if !rec.Progress.Get(uint64(i)) {
					c.Fail("held", l.kase, "chunk %d was available before and is not any more", i)
				}
			}
		}
	}
	for time.Since(start) < limit || (n == 0 && time.Since(start) < 60*time.Second) {
		c.Beat()
		select {
		case <-played:
			n++
		case <-time.After(100 * time.Millisecond):
		}
		monitor()
		if s.slow && n > 1 {
			break
		}
		if s.slow {
			if ok, _ := d.complete(l.oData); ok {
				break
			}
		}
	}
	if n == 0 {
		c.Fail("not-tried", l.kase, "the peer was never asked for a chunk within %v", time.Since(start))
	}
	if s.slow {
		l.otherCompletes(200 * time.Second) // while it still goes on
	}
	takeOver()
	over.Do(func() { close(stopped) })
	c.Obs("hostile transfers played", n)
	// an honest peer takes over
	end := 90 * time.Second
	if s.slow {
		end = 120 * time.Second
	}
	if s.forged {
		// the file will turn out to be another one
		if !c.WaitFor(end, func() bool { monitor(); _, err := d.st.Cat.Contains(sha(hash)); return err != nil }) {
			if ok, _ := d.complete(data); !ok {
				rec, _ := d.st.Cat.Contains(sha(hash))
				c.Fail("forged", l.kase, "a file made of forged chunks is still listed: %v", rec)
			}
		}
	} else {
		var why string
		if !c.WaitFor(end, func() (ok bool) { monitor(); ok, why = d.complete(data); return }) {
			c.Fail("incomplete", l.kase, "%v after an honest peer took over from the hostile one, the download is not complete: %s", end, why)
		} else {
			c.Obs("downloads completed after an attack", 1)
		}
	}
	l.otherCompletes(end)
	l.intact(path, l.oPath())
}

func (l *hostileLab) listAttack(r *rand.Rand, s *listScript, hostile *Peer, data []byte, chunk int, takeOver func()) {
	c, d := l.c, l.d
	hash := sum(data)
	hostile.serve(hash, data, chunk, "target.bin")
	n := uint32(chunkCount(int64(len(data)), chunk))
	rr := rand.New(rand.NewPCG(r.Uint64(), 5))
	hostile.onList = func(p *Peer, from *net.UDPAddr, m wMsg) {
		for _, b := range s.reply(rr, m.ReqID, wFile{Size: uint64(len(data)), Count: n, ChunkSize: uint32(chunk), Downloaded: n, Hash: hash, Name: "target.bin"}) {
			p.sock.send(from, b)
		}
	}
	// and it sends chunks that fit what it said, as far as that goes
	honestOpen := hostile.onOpen
	hostile.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		rec, err := d.st.Cat.Contains(sha(hash))
		if err != nil || (rec.SizeInBytes == int64(len(data)) && rec.ChunkSize == chunk) {
			honestOpen(p, from, m)
			return
		}
		size := min(int64(rec.ChunkSize), rec.SizeInBytes-int64(m.Chunk)*int64(rec.ChunkSize), 64<<20)
		if size > 60000 {
			p.sock.send(from, encOpening(sum(data), uint32(size), data[:200]))
			p.sock.send(from, encData(uint32(size), nil))
			return
		}
		for _, b := range chunkPackets(bytes.Repeat([]byte{0xEE}, int(max(0, size)))) {
			p.sock.send(from, b)
		}
	}
	var err error
	if !c.Await("download", l.kase, func() { err = d.srv.StartDownload(sha(hash)) }) {
		return
	}
	rec, cerr := d.st.Cat.Contains(sha(hash))
	if err != nil && cerr == nil {
		c.Fail("entry-after-error", l.kase, "the request failed with %q but left an entry %+v", err, viewOf(rec))
	}
	l.startOther()
	path := d.path(data)
	if path != "" && filepath.Dir(path) != filepath.Join(d.base, "down") {
		c.Fail("place", l.kase, "the download goes to %q", path)
	}
	honestMeta := cerr == nil && rec.SizeInBytes == int64(len(data)) && rec.ChunkSize == chunk
	if err == nil && !honestMeta {
		c.Obs("forged metadata accepted", 1)
		time.Sleep(5 * time.Second) // whatever it does now
	}
	takeOver()
	if err != nil {
		c.Obs("hostile listings refused", 1)
		if !c.Await("download", l.kase, func() { err = d.srv.StartDownload(sha(hash)) }) {
			return
		}
		if err != nil {
			c.Fail("refused", l.kase, "after a hostile reply, the download cannot be requested from an honest peer: %v", err)
			return
		}
		honestMeta = true
	}
	if honestMeta {
		var why string
		if !c.WaitFor(90*time.Second, func() (ok bool) { ok, why = d.complete(data); return }) {
			c.Fail("incomplete", l.kase, "after a hostile reply, the download from an honest peer is not complete: %s", why)
		}
	}
	l.otherCompletes(120 * time.Second)
	l.intact(filepath.Join(d.base, "down", "target.bin"), path, d.path(data), l.oPath())
	if !honestMeta && path != "" {
		if b, err := os.Lstat(path); err == nil && b.Size() > rec.SizeInBytes {
			c.Fail("target", l.kase, "the file has %d bytes, more than its %d", b.Size(), rec.SizeInBytes)
		}
	}
}
