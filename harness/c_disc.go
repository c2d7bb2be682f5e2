package main

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu"
	"github.com/flu-network/client/flu/messages"
)

func init() {
	register("C07", "exploration", c07)
	register("C08", "exploration", c08)
	register("C09", "exploration", c09)
}

// expand turns a list of inclusive ranges into the set of its members. ok is false if it is not sorted
// and disjoint.
func expand(ranges []uint16) (set map[int]bool, ok bool) {
	set = map[int]bool{}
	if len(ranges)%2 != 0 {
		return set, false
	}
	ok = true
	last := -1
	for i := 0; i < len(ranges); i += 2 {
		a, b := int(ranges[i]), int(ranges[i+1])
		if a <= last || b < a {
			ok = false
		}
		for x := a; x <= b; x++ {
			set[x] = true
		}
		last = max(last, b)
	}
	return set, ok
}

// maximalRanges counts the maximal runs in a set below n.
func maximalRanges(set map[int]bool) int {
	n := 0
	for i := range set {
		if !set[i-1] {
			n++
		}
	}
	return n
}

func c07(c *Ctx) {
	c.Rule(`A discovery request (no file, an unknown one, a known one; no chunks, sorted separate ranges, or a
		malformed list) to a server whose files have all kinds of progress. The reply is decoded independently
		and compared with the chunks that were saved: right ID, address and port, only held (and asked-for)
		chunks, all of them if they form at most 127 ranges. Distinct by held set and request.`)
	hosts := c.N(10, 120)
	perHost := c.N(1000, 5000)
	Par(6, hosts, func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("host", k)
		base := c.Dir("h")
		defer c.rm(base)
		st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
		if err != nil {
			c.Fail("open-fails", nil, "%v", err)
			return
		}
		type file struct {
			hash Hash
			n    int
			held map[int]bool
			data []byte
			size int // of a chunk
		}
		var files []*file
		add := func(n int, have []int) {
			size := n
			chunk := 1
			if n < 2000 {
				chunk = 1 + r.IntN(3)
				size = n*chunk - r.IntN(chunk)
			}
			data := randBytes(r, size)
			if size < 8 {
				data = append(make([]byte, 0), randBytes(r, 8)...) // short contents would collide
				chunk = (8-1)/n + 1
				n = chunkCount(8, chunk)
				var h2 []int
				for _, x := range have {
					if x < n {
						h2 = append(h2, x)
					}
				}
				have = h2
			}
			if have == nil {
				have = []int{}
			}
			if _, err := st.seed(data, chunk, fmt.Sprint("f", len(files)), have); err != nil {
				c.Fail("seed", nil, "%v", err)
				return
			}
			f := &file{sum(data), n, map[int]bool{}, nil, chunk}
			if n < 2000 {
				f.data = data
			}
			for _, x := range have {
				f.held[x] = true
			}
			files = append(files, f)
		}
		add(65536, []int{0, 1, 63, 64, 65, 127, 128, 1000, 32767, 32768, 65471, 65472, 65533, 65534, 65535})
		add(40000, randHave(r, 60))
		add(300+r.IntN(300), nil)
		for _, gaps := range []int{1, 2, 126, 127, 128, 129, 200} {
			// that many ranges, of random lengths
			var have []int
			x := r.IntN(3)
			for i := 0; i < gaps; i++ {
				for l := 1 + r.IntN(2); l > 0; l-- {
					have = append(have, x)
					x++
				}
				x += 1 + r.IntN(2)
			}
			add(x+r.IntN(70), have)
		}
		for i := 0; i < 6; i++ {
			n := 1 + r.IntN(300)
			add(n, randHave(r, n))
		}
		for _, n := range []int{1, 63, 64, 65, 128} {
			var all []int
			for i := 0; i < n; i++ {
				all = append(all, i)
			}
			add(n, all)
		}
		// change saves a chunk, or makes others available, perhaps as many as before
		change := func(f *file) {
			if i := r.IntN(f.n); !f.held[i] && r.IntN(2) == 0 {
				if err := st.Cat.SaveChunk(sha(f.hash), uint16(i), chunkOf(f.data, f.size, i)); err != nil {
					c.Fail("seed", nil, "%v", err)
				}
				f.held[i] = true
				c.Obs("chunks saved between requests", 1)
				return
			}
			if f.n > 200 {
				return
			}
			if err := st.Cat.UnshareFile(sha(f.hash)); err != nil {
				c.Fail("seed", nil, "%v", err)
			}
			have := r.Perm(f.n)
			if r.IntN(3) == 0 {
				have = have[:r.IntN(f.n+1)]
			} else {
				have = have[:len(f.held)]
			}
			if _, err := st.seed(f.data, f.size, "again", have); err != nil {
				c.Fail("seed", nil, "%v", err)
			}
			f.held = map[int]bool{}
			for _, x := range have {
				f.held[x] = true
			}
			c.Obs("files with other chunks between requests", 1)
		}
		// replies go to the requester's address and the server's port, which here is not where it listens
		lan := newSock(ip127(k), 0)
		defer lan.close()
		port := lan.addr.Port
		h := newHostAs(c, st, 0, port)
		defer h.close()
		var lastID uint16
		var last *net.UDPAddr
		for i := 0; i < perHost && c.Failed() < 20; i++ {
			f := files[r.IntN(len(files))]
			if f.data != nil && r.IntN(6) == 0 {
				change(f)
			}
			hash, held := f.hash, f.held
			what := "known"
			switch r.IntN(12) {
			case 0:
				hash, held, what = blankHash, nil, "blank"
			case 1:
				hash, held, what = sum(randBytes(r, 9)), nil, "unknown"
				if r.IntN(3) == 0 {
					hash = f.hash
					hash[r.IntN(20)] ^= 1 << r.IntN(8)
				}
			}
			var ask []uint16
			form := "all"
			switch r.IntN(4) {
			case 0:
				form = "malformed"
				for l := 1 + r.IntN(8); l > 0; l-- {
					ask = append(ask, uint16(r.IntN(f.n+10)))
				}
			case 1, 2:
				form = "ranges"
				x := r.IntN(min(f.n, 64))
				maxGap := 1 + r.IntN(1+f.n/10)
				for l := 1 + r.IntN(120); l > 0 && x < 65536; l-- {
					end := min(65535, x+r.IntN(maxGap))
					ask = append(ask, uint16(x), uint16(end))
					x = end + 2 + r.IntN(maxGap)
				}
			}
			id := uint16(r.Uint32())
			if i%50 == 0 {
				id = []uint16{0, 65535, 1, 256, 255}[i/50%5]
			}
			from := &net.UDPAddr{IP: lan.addr.IP, Port: 1024 + r.IntN(60000)}
			if last != nil && r.IntN(6) == 0 { // a requester that was restarted begins with the same IDs again
				id, from = lastID, last
				c.Obs("requests with an ID of before", 1)
			}
			lastID, last = id, from
			req := encDiscReq(id, hash, ask)
			kase := map[string]any{"chunks": f.n, "held ranges": maximalRanges(f.held), "asked": ask, "kind": what, "request": fmt.Sprintf("%x", req)}
			dropped := drops(lan.conn)
			if r.IntN(4) == 0 {
				// through the daemon's loop; comes from the very socket
				lan.send(h.addr, req)
			} else {
				var err error
				if !c.Await("request", kase, func() { err = h.handle(req, from) }) {
					return
				}
				if err != nil {
					c.Fail("error", kase, "the request was refused: %v", err)
					continue
				}
			}
			p, ok := lan.next(30 * time.Second)
			if !ok {
				if drops(lan.conn) == dropped {
					c.Fail("no-reply", kase, "no reply arrived")
				}
				continue
			}
			m, err := wParse(p.data)
			if err != nil || m.Type != tDiscResp {
				c.Fail("reply", kase, "the reply is %s (%v)", clip(p.data, 64), err)
				continue
			}
			if m.ReqID != id || m.Addr != [4]byte{10, 77, 0, 1} || int(m.Port) != port {
				c.Fail("reply-header", kase, "the reply has ID %d (want %d), address %v, port %d (want %d)", m.ReqID, id, m.Addr, m.Port, port)
				continue
			}
			got, sorted := expand(m.Chunks)
			asked, _ := expand(ask)
			want := map[int]bool{}
			for x := range held {
				if form != "ranges" || asked[x] {
					want[x] = true
				}
			}
			for x := range got {
				if !held[x] {
					c.Fail("not-held", kase, "advertises chunk %d, which is not held: %v", x, m.Chunks)
					break
				}
				if form == "ranges" && !asked[x] {
					c.Fail("not-asked", kase, "advertises chunk %d, which was not asked for: %v", x, m.Chunks)
					break
				}
			}
			if form != "malformed" {
				if !sorted {
					c.Fail("unsorted", kase, "the list is not sorted and disjoint: %v", m.Chunks)
				}
				if n := maximalRanges(want); n <= 127 && len(got) != len(want) {
					c.Fail("incomplete", kase, "advertises %d chunks of %d, which form %d ranges", len(got), len(want), n)
				} else if n > 127 {
					c.Obs("replies that cannot hold all ranges", 1)
				}
			}
			c.Obs("replies "+what+" "+form, 1)
			c.Obs("advertised chunks compared", len(got))
			key := ""
			if what == "known" && len(held) > 0 {
				key = fmt.Sprint(k, f.hash, ask)
			}
			c.Eval(key)
			if i == 7 {
				c.Sample("reply", map[string]any{"held ranges": maximalRanges(f.held), "asked": len(ask) / 2, "reply": len(m.Chunks) / 2})
			}
		}
	})
	c07Moves(c)
}

// c07Moves lets the host change its address while the server runs.
func c07Moves(c *Ctx) {
	st := newStore(c)
	data := randBytes(c.Rng("moves", 0), 5000)
	if _, err := st.seed(data, 700, "f", nil); err != nil {
		c.Fail("seed", nil, "%v", err)
		return
	}
	peer := newSock("0.0.0.0", 0)
	defer peer.close()
	port := peer.addr.Port
	srv := flu.NewServer(port, st.Cat)
	old := "10.77.0.1"
	for i, next := range []string{"", "10.78.3.9", "172.16.0.2", "10.77.0.1"} {
		if next != "" {
			must(sh("ip addr add %s/24 dev lo; ip addr del %s/24 dev lo", next, old))
			old = next
		}
		ip := [4]byte(net.ParseIP(old).To4())
		kase := map[string]any{"address": old}
		var err error
		if !c.Await("reply", kase, func() {
			err = srv.HandleMessage(encDiscReq(uint16(i), sum(data), nil), peer.conn, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 5})
		}) {
			return
		}
		p, ok := peer.next(20 * time.Second)
		if err != nil || !ok {
			c.Fail("no-reply", kase, "after its address changed to %s a discovery is not answered: %v", old, err)
			return
		}
		if m, err := wParse(p.data); err != nil || m.Addr != ip || int(m.Port) != port || m.ReqID != uint16(i) {
			c.Fail("reply-header", kase, "after its address changed to %s the reply has ID %d (want %d), address %v, port %d (want %d)", old, m.ReqID, i, m.Addr, m.Port, port)
		}
		c.Eval("address " + old)
		c.Obs("replies after the host's address changed", 1)
	}
}

// entriesOf turns decoded entries into comparable strings.
func entriesOf(files []wFile) []string {
	var l []string
	for _, f := range files {
		l = append(l, fmt.Sprintf("%+v", f))
	}
	sort.Strings(l)
	return l
}

func wireEntries(files []messages.ListFilesEntry) []wFile {
	var l []wFile
	for _, f := range files {
		l = append(l, wFile{Size: f.SizeInBytes, Count: f.ChunkCount, ChunkSize: f.ChunkSizeInBytes, Downloaded: f.ChunksDownloaded, Hash: f.Sha1Hash.Data, Name: f.FileName})
	}
	return l
}

func sameStrings(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries instead of %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s instead of %s", a[i], b[i])
		}
	}
	return ""
}

func c08(c *Ctx) {
	c.Rule(`Either a file-list request (all files, one, an unknown one) to a server whose catalogue's content is
		known, at every number of files up to more than a datagram can hold, with the reply decoded
		independently; or a real server (or the daemon's own list command) listing a scripted host that replies with valid, cut off, inconsistent
		or foreign datagrams, compared with an independent decoder: exactly those entries or an error. Distinct
		by entries and request, or by reply.`)
	var slow sync.WaitGroup
	// what a host says
	Par(6, c.N(12, 100), func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("host", k)
		base := c.Dir("h")
		st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
		if err != nil {
			c.Fail("open-fails", nil, "%v", err)
			return
		}
		h := newHost(c, st, 0)
		peer := newSock(ip127(k), 0)
		rst := newStore(c)
		requester := newHostAs(c, rst, 0, h.addr.Port)
		methods := cli.NewMethods(rst.Cat, requester.srv)
		var files []wFile
		type partly struct {
			data []byte
			have map[int]bool
		}
		partial := map[Hash]*partly{}
		nameLen := 0
		total := 30 + r.IntN(30)
		if k%3 == 0 {
			nameLen, total = 255, 226 // beyond what fits in a datagram
		}
		ask := func(hash Hash) {
			var want []wFile
			for _, f := range files {
				if hash == blankHash || f.Hash == hash {
					want = append(want, f)
				}
			}
			id := uint16(r.Uint32())
			req := encListReq(id, hash)
			size := len(encListResp(0, want))
			kase := map[string]any{"files": len(want), "reply size": size, "request": fmt.Sprintf("%x", req)}
			var err error
			if !c.Await("request", kase, func() { err = h.handle(req, peer.addr) }) {
				return
			}
			c.Eval(fmt.Sprint(k, len(files), hash))
			if size > 65507 {
				if err == nil {
					c.Fail("oversized", kase, "a reply that does not fit was reported as sent")
				}
				if p, ok := peer.next(0); ok {
					c.Fail("partial", kase, "%d bytes were sent instead of %d", len(p.data), size)
				}
				c.Obs("listings too long for a datagram", 1)
				if requester != nil && r.IntN(4) == 0 {
					slow.Add(1)
					go func() { // takes until its timeout
						defer slow.Done()
						if res, err := requester.srv.ListFilesOnHost([4]byte{127, 0, 0, 1}, uint16(h.addr.Port), sha(hash)); err == nil {
							c.Fail("partial", kase, "listing returned %d entries of %d without an error", len(res.Files), len(want))
						}
					}()
				}
				return
			}
			if err != nil {
				c.Fail("error", kase, "the request was refused: %v", err)
				return
			}
			p, ok := peer.next(30 * time.Second)
			if !ok {
				c.Fail("no-reply", kase, "no reply arrived")
				return
			}
			m, perr := wParse(p.data)
			if perr != nil || m.Type != tListResp || m.Consumed != len(p.data) {
				c.Fail("reply", kase, "the reply is %s (%v)", clip(p.data, 80), perr)
				return
			}
			if m.ReqID != id {
				c.Fail("reply-id", kase, "the reply has ID %d, want %d", m.ReqID, id)
			}
			if d := sameStrings(entriesOf(m.Files), entriesOf(want)); d != "" {
				c.Fail("entries", kase, "%s", d)
			}
			c.Obs("entries compared", len(m.Files))
			c.ObsMax("most entries in a reply", len(m.Files))
			if r.IntN(5) == 0 {
				// the whole way
				var res *messages.ListFilesResponse
				if !c.Await("list", kase, func() {
					if r.IntN(2) == 0 {
						res, err = requester.srv.ListFilesOnHost([4]byte{127, 0, 0, 1}, uint16(h.addr.Port), sha(hash))
					} else {
						res, err = listThrough(methods, [4]byte{127, 0, 0, 1}, hash)
					}
				}) {
					return
				}
				if err != nil {
					c.Obs("listings that failed", 1) // e.g. no CPU for two seconds
				} else if d := sameStrings(entriesOf(wireEntries(res.Files)), entriesOf(want)); d != "" {
					c.Fail("entries", kase, "listing the host: %s", d)
				} else {
					c.Obs("hosts listed", 1)
				}
			}
		}
		ask(blankHash)
		for i := 0; i < total && c.Failed() < 20; i++ {
			chunk := 1 + r.IntN(400)
			data := randBytes(r, 8+r.IntN(1000))
			if r.IntN(10) == 0 {
				chunk = 1 << r.IntN(32)
			}
			name := oddName(r, i)
			if nameLen > 0 {
				name = fmt.Sprintf("%03d", i) + strings.Repeat("n", nameLen-3)
			}
			n := chunkCount(int64(len(data)), chunk)
			f := wFile{Size: uint64(len(data)), Count: uint32(n), ChunkSize: uint32(chunk), Hash: sum(data), Name: name}
			if i == 4 || r.IntN(12) == 0 { // of a size that is not stored here
				f.Size = []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<45 + uint64(r.Uint32()), uint64(r.Uint32()) << 4}[r.IntN(8)]
				f.ChunkSize = uint32(max(f.Size>>16, []uint64{1, 1 << 22, 1 << 23, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.IntN(7)]))
				if (f.Size-1)/uint64(f.ChunkSize) > 65535 {
					f.ChunkSize++
				}
				f.Count = uint32((f.Size-1)/uint64(f.ChunkSize) + 1)
				f.Downloaded = 0
				rec, err := st.Cat.RegisterDownload(f.Size, f.Count, f.ChunkSize, sha(f.Hash), name)
				if err != nil {
					c.Fail("seed", nil, "%+v: %v", f, err)
					return
				}
				f.Name = filepath.Base(rec.FilePath)
				c.Obs("listed files of more than memory", 1)
			} else if r.IntN(3) == 0 {
				p := filepath.Join(base, "user", fmt.Sprint(i), name)
				write(p, data)
				if r.IntN(12) == 0 && nameLen == 0 {
					data = nil
					write(p, nil)
				}
				f.Size, f.Hash, f.Count, f.ChunkSize = uint64(len(data)), sum(data), uint32(chunkCount(int64(len(data)), defaultChunk)), defaultChunk
				f.Downloaded = f.Count
				if _, err := st.Cat.ShareFile(p); err != nil {
					continue // the empty file, again
				}
				if len(data) > 0 && r.IntN(4) == 0 { // and once more after it was rewritten
					files = append(files, f)
					total--
					data = randBytes(r, len(data)+r.IntN(2))
					write(p, data)
					if _, err := st.Cat.ShareFile(p); err != nil {
						c.Fail("seed", nil, "%v", err)
						return
					}
					f.Size, f.Hash = uint64(len(data)), sum(data)
					c.Obs("files shared again with other content", 1)
				}
			} else {
				have := randHave(r, n)
				if have == nil {
					have = []int{}
				}
				path, err := st.seed(data, chunk, name, have)
				if err != nil {
					c.Fail("seed", nil, "%v", err)
					return
				}
				f.Downloaded = uint32(len(have))
				f.Name = filepath.Base(path)
				partial[f.Hash] = &partly{data, map[int]bool{}}
				for _, i := range have {
					partial[f.Hash].have[i] = true
				}
			}
			files = append(files, f)
			ask(blankHash)
			if r.IntN(3) == 0 {
				ask(files[r.IntN(len(files))].Hash)
			}
			if r.IntN(6) == 0 {
				ask(sum(randBytes(r, 8)))
			}
			if r.IntN(3) == 0 { // more of a download arrives, between two listings
				j := r.IntN(len(files))
				if f := &files[j]; partial[f.Hash] != nil {
					x := partial[f.Hash]
					for n := 1 + r.IntN(5); n > 0; n-- {
						i := r.IntN(int(f.Count))
						if err := st.Cat.SaveChunk(sha(f.Hash), uint16(i), chunkOf(x.data, int(f.ChunkSize), i)); err != nil {
							c.Fail("seed", nil, "%v", err)
						}
						x.have[i] = true
					}
					f.Downloaded = uint32(len(x.have))
					if r.IntN(2) == 0 {
						ask(blankHash)
					}
					ask(f.Hash)
					c.Obs("listings of a download that went on", 1)
				}
			}
			if r.IntN(8) == 0 { // the host restarts
				if st, err = openStore(st.Dir, st.Down); err != nil {
					c.Fail("open-fails", nil, "%v", err)
					return
				}
				h.restart(st)
				if r.IntN(2) == 0 {
					ask(files[r.IntN(len(files))].Hash)
				}
			}
			if nameLen == 0 && r.IntN(8) == 0 {
				j := r.IntN(len(files))
				if err := st.Cat.UnshareFile(sha(files[j].Hash)); err != nil {
					c.Fail("seed", nil, "%v", err)
				}
				gone := files[j].Hash
				files = append(files[:j:j], files[j+1:]...)
				ask(gone)
				ask(blankHash)
			}
		}
		c.Sample("host", map[string]any{"files": len(files)})
		slow.Wait()
		peer.close()
		requester.close()
		h.close()
		c.rm(base)
	})
	// what a requester makes of replies
	Par(8, c.N(160, 2000), func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("requester", k)
		st := newStore(c)
		defer c.rm(filepath.Dir(st.Dir))
		remote := newSock(ip127(k), 0)
		defer remote.close()
		h := newHostAs(c, st, 0, remote.addr.Port) // hosts are asked on the port that this one listens on
		defer h.close()
		methods := cli.NewMethods(st.Cat, h.srv)
		addr := [4]byte(remote.addr.IP.To4())
		for i := 0; i < 25 && c.Failed() < 20; i++ {
			n := []int{0, 1, 2, 3 + r.IntN(20), 100}[r.IntN(5)]
			var files []wFile
			for j := 0; j < n; j++ {
				f := wFile{Size: r.Uint64(), Count: r.Uint32(), ChunkSize: r.Uint32(), Downloaded: r.Uint32(), Hash: sum(randBytes(r, 8)), Name: oddName(r, j)}
				if r.IntN(8) == 0 {
					f.Name = ""
				}
				files = append(files, f)
			}
			reply := encListResp(0, files)
			mode := []string{"valid", "valid", "cut", "count", "foreign", "garbage", "flip", "longer", "none"}[r.IntN(9)]
			if mode == "none" && i > 0 {
				mode = "cut" // takes two seconds
			}
			switch mode {
			case "cut":
				reply = reply[:r.IntN(len(reply))]
			case "count":
				binary.BigEndian.PutUint16(reply[3:], uint16(max(0, n+[]int{1, 2, -1, 60000}[r.IntN(4)])))
			case "foreign":
				reply = [][]byte{encDiscResp(0, addr, 1, nil), encListReq(0, blankHash), encAck(7), encDiscReq(0, blankHash, nil), {}, {9}}[r.IntN(6)]
			case "garbage":
				reply = randBytes(r, r.IntN(100))
			case "flip":
				reply[r.IntN(len(reply))] ^= 1 << r.IntN(8)
			case "longer":
				reply = append(reply, randBytes(r, 1+r.IntN(50))...)
			}
			hash := blankHash
			if r.IntN(2) == 0 {
				hash = sum(randBytes(r, 4))
			}
			done := make(chan Hash, 1)
			var asked atomic.Bool
			go func() {
				p, ok := remote.next(10 * time.Second)
				if !ok {
					done <- Hash{}
					return
				}
				asked.Store(true)
				m, err := wParse(p.data)
				if err != nil || m.Type != tListReq || m.Consumed != len(p.data) {
					c.Fail("request", nil, "listing a host sent %s", clip(p.data, 64))
				}
				if mode != "none" {
					out := reply
					if len(out) >= 3 && m.Type == tListReq && mode != "garbage" && mode != "flip" {
						out = append([]byte{}, reply...)
						binary.BigEndian.PutUint16(out[1:], m.ReqID)
					}
					remote.send(p.from, out)
				}
				done <- m.Hash
			}()
			var res *messages.ListFilesResponse
			var err error
			kase := map[string]any{"reply": clip(reply, 2000), "mode": mode}
			if !c.Await("list", kase, func() {
				if i%2 == 0 {
					res, err = h.srv.ListFilesOnHost(addr, uint16(remote.addr.Port), sha(hash))
				} else {
					res, err = listThrough(methods, addr, hash)
				}
			}) {
				return
			}
			if got := <-done; got != hash && asked.Load() {
				c.Fail("request-hash", kase, "asked for %v instead of %v", got, hash)
			}
			m, perr := wParse(reply)
			bad := mode == "none" || perr != nil || m.Type != tListResp
			switch {
			case bad && err == nil:
				c.Fail("accepted", kase, "listing returned %d entries without an error for a reply that is not a complete listing (%v)", len(res.Files), perr)
			case bad:
				c.Obs("incomplete replies refused", 1)
			case err != nil && mode == "valid" && strings.Contains(err.Error(), "timeout"):
				c.Obs("listings that failed", 1)
			case err != nil && mode == "valid":
				c.Fail("refused", kase, "a complete listing was refused: %v", err)
			case err == nil:
				if d := sameStrings(entriesInOrder(wireEntries(res.Files)), entriesInOrder(m.Files)); d != "" {
					c.Fail("entries", kase, "listing returned %s", d)
				}
				c.Obs("valid replies compared", 1)
			}
			c.Eval(fmt.Sprintf("%s %x", mode, reply))
		}
	})
}

// listThrough lists a host with the daemon's own command. A catalogue's sizes have 63 bits.
func listThrough(m *cli.Methods, addr [4]byte, hash Hash) (*messages.ListFilesResponse, error) {
	res := &cli.ListResponse{}
	if err := m.List(&cli.ListRequest{IP: net.IP(addr[:]), Sha1Hash: sha(hash)}, res); err != nil {
		return nil, err
	}
	out := &messages.ListFilesResponse{}
	for _, it := range res.Items {
		h := Hash(it.Sha1Hash)
		out.Files = append(out.Files, messages.ListFilesEntry{SizeInBytes: uint64(it.SizeInBytes), ChunkCount: uint32(it.ChunkCount), ChunkSizeInBytes: uint32(it.ChunkSizeInBytes), ChunksDownloaded: uint32(it.ChunksDownloaded), Sha1Hash: sha(h), FileName: it.FilePath})
	}
	return out, nil
}

func entriesInOrder(files []wFile) []string {
	var l []string
	for _, f := range files {
		l = append(l, fmt.Sprintf("%+v", f))
	}
	return l
}

func c09(c *Ctx) {
	c.Rule(`Rounds of many discoveries running at once on one server, with staggered starts. Replies with unique
		content are delivered for each of their IDs throughout, and by several routines at full speed around the
		moment each of them times out, together with replies to IDs that nobody waits for. A reply that was
		accepted must be in exactly the result of its discovery, once and unaltered, and a refused one nowhere;
		all deliveries and later discoveries must return. Request IDs pass 65535 meanwhile. Then up to
		5000 discoveries and listings at once, and discoveries to which replies keep coming, which must end all the same. A discovery is a
		case; distinct by server, round and number.`)
	servers := c.N(16, 64)
	rounds := c.N(3, 12)
	var wg sync.WaitGroup
	for k := 0; k < servers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c09Server(c, k, rounds)
		}()
	}
	wg.Wait()
	for k := 0; k < c.N(2, 8) && c.Failed() == 0; k++ {
		c09Crowd(c, k)
	}
	if c.Failed() == 0 {
		Par(8, c.N(8, 40), func(k int) { c09Trickle(c, k) })
	}
}

// c09Trickle lets replies to a discovery come in for as long as it takes, which must not be long.
func c09Trickle(c *Ctx, k int) {
	st := newStore(c)
	h := newHost(c, st, 0)
	port := h.addr.Port
	h.close()
	lan := newSock("0.0.0.0", port)
	defer lan.close()
	gap := []time.Duration{1800, 1000, 500, 100, 20, 1, 0, 0}[k%8] * time.Millisecond
	kase := map[string]any{"a reply every": gap.String()}
	done := make(chan struct{})
	var back []messages.DiscoverHostResponse
	start := time.Now()
	go func() {
		defer close(done)
		back = h.srv.DiscoverHosts(sha(sum([]byte("trickle"))), nil)
	}()
	p, ok := lan.next(20 * time.Second)
	m, err := wParse(p.data)
	if !ok || err != nil || m.Type != tDiscReq {
		<-done
		c.Obs("discoveries whose request was not seen", 1)
		return
	}
	accepted := 0
	for n := 1; ; n++ {
		over := false
		select {
		case <-done:
			over = true
		case <-time.After(gap):
		}
		if over {
			break
		}
		if time.Since(start) > 60*time.Second {
			c.Fail("endless", kase, "a discovery is still collecting after a minute, because replies keep coming")
			return
		}
		if !c.Await("reply", kase, func() {
			if h.srv.HandleMessage(encDiscResp(m.ReqID, [4]byte{10, byte(n >> 16), byte(n >> 8), byte(n)}, 7, nil), nil, lan.addr) == nil {
				accepted++
			}
		}) {
			return
		}
	}
	if len(back) != accepted {
		c.Fail("lost", kase, "%d replies were accepted, but the discovery returned %d", accepted, len(back))
	}
	c.Obs("replies that kept coming", accepted)
	c.Eval(fmt.Sprint("trickle ", k))
}

// c09Crowd starts very many discoveries at once, with listings among them, and answers each.
func c09Crowd(c *Ctx, k int) {
	r := c.Rng("crowd", k)
	n := []int{600, 3000, 5000}[k%3]
	st := newStore(c)
	h := newHost(c, st, 0)
	port := h.addr.Port
	h.close()
	lan := newSock("0.0.0.0", port)
	defer lan.close()
	host := newSock(ip127(900), 0)
	defer host.close()
	kase := map[string]any{"discoveries at once": n}
	type got struct {
		ids  map[uint16]bool
		sent map[string]int // replies: 0 on their way, 1 accepted, 2 refused
	}
	var mu sync.Mutex
	seen := map[Hash]*got{}
	using := map[uint16]Hash{} // by discoveries that have not returned
	stop := make(chan struct{})
	var net sync.WaitGroup
	net.Add(2)
	seq := uint32(0)
	go func() {
		defer net.Done()
		for {
			p, ok := lan.next(20 * time.Millisecond)
			if !ok {
				select {
				case <-stop:
					return
				default:
					continue
				}
			}
			m, err := wParse(p.data)
			if err != nil || m.Type != tDiscReq {
				continue
			}
			mu.Lock()
			if other, used := using[m.ReqID]; used && other != m.Hash {
				c.Fail("request-id", kase, "two discoveries at the same time have ID %d", m.ReqID)
			}
			g := seen[m.Hash]
			if g == nil {
				g = &got{ids: map[uint16]bool{}, sent: map[string]int{}}
				seen[m.Hash] = g
				using[m.ReqID] = m.Hash
			}
			g.ids[m.ReqID] = true
			mu.Unlock()
			for i := 0; i < 2; i++ {
				seq++
				addr := [4]byte{10, byte(seq >> 16), byte(seq >> 8), byte(seq)}
				mu.Lock()
				g.sent[fmt.Sprint(addr)] = 0
				mu.Unlock()
				state := 2
				if h.srv.HandleMessage(encDiscResp(m.ReqID, addr, 7, nil), nil, lan.addr) == nil {
					state = 1
				}
				mu.Lock()
				g.sent[fmt.Sprint(addr)] = state
				mu.Unlock()
			}
		}
	}()
	go func() { // answers the listings
		defer net.Done()
		for {
			p, ok := host.next(20 * time.Millisecond)
			if !ok {
				select {
				case <-stop:
					return
				default:
					continue
				}
			}
			if m, err := wParse(p.data); err == nil && m.Type == tListReq {
				host.send(p.from, encListResp(m.ReqID, []wFile{{Hash: m.Hash, Name: "x"}}))
				// and to the server itself, where nobody waits for it, or a discovery with that ID
				h.srv.HandleMessage(encListResp(m.ReqID, []wFile{{Hash: m.Hash, Name: "x"}}), nil, lan.addr)
			}
		}
	}()
	c.Await("discovery", kase, func() {
		var dg sync.WaitGroup
		for i := 0; i < n; i++ {
			hash := sum([]byte(fmt.Sprint("crowd", k, i)))
			delay := time.Duration(r.IntN(1000)) * time.Millisecond
			dg.Add(1)
			go func() {
				defer dg.Done()
				time.Sleep(delay)
				if i%10 == 9 {
					res, err := h.srv.ListFilesOnHost([4]byte(host.addr.IP.To4()), uint16(host.addr.Port), sha(hash))
					if err == nil && (len(res.Files) != 1 || res.Files[0].Sha1Hash.Data != hash) {
						c.Fail("foreign", kase, "a listing of %v returned %+v", hash, res.Files)
					}
					if err == nil {
						c.Obs("listings among them", 1)
					}
					return
				}
				res := h.srv.DiscoverHosts(sha(hash), nil)
				mu.Lock()
				defer mu.Unlock()
				g := seen[hash]
				if g == nil {
					c.Obs("discoveries whose request was not seen", 1)
					if len(res) > 0 {
						c.Fail("foreign", kase, "a discovery that nobody saw returned %+v", res)
					}
					return
				}
				for id := range g.ids {
					delete(using, id)
				}
				back := map[string]bool{}
				for _, x := range res {
					key := fmt.Sprint(x.Address)
					if state, known := g.sent[key]; !known || state == 2 || back[key] || !g.ids[x.RequestID] {
						c.Fail("foreign", kase, "a discovery with ID %v returned a reply that was not accepted for it, or twice: %+v", g.ids, x)
						return
					}
					back[key] = true
				}
				for key, state := range g.sent {
					if state == 1 && !back[key] {
						c.Fail("lost", kase, "a discovery with ID %v did not return the reply from %s that was accepted for it", g.ids, key)
					}
				}
				c.Obs("replies in a crowd", len(back))
				c.Eval(fmt.Sprint("crowd", k, i))
			}()
		}
		dg.Wait()
	})
	close(stop)
	net.Wait()
	c.ObsMax("most discoveries at once", n)
}

type injected struct { // equal replies
	id                uint16
	accepted, refused int
}

func c09Server(c *Ctx, k, rounds int) {
	r := c.Rng("server", k)
	st := newStore(c)
	h := newHost(c, st, 0)
	port := h.addr.Port
	h.close() // replies are delivered directly
	lan := newSock("0.0.0.0", port)
	defer lan.close()
	if k%4 == 0 {
		// let the IDs come close to their end: an unused port refuses at once
		target := 65536 - 20
		for i := 0; i < target; i++ {
			h.srv.ListFilesOnHost([4]byte{127, 9, 9, 9}, 9, sha(blankHash))
			if i%256 == 0 {
				c.Beat()
			}
		}
		c.Obs("servers whose request IDs wrapped around", 1)
	}
	var mu sync.Mutex
	sent := map[string]*injected{} // by address and port
	seq := uint32(0)
	var idOf sync.Map // hash of the discovery -> ID
	inject := func(ir *rand.Rand, id uint16) {
		mu.Lock()
		seq++
		n := seq
		mu.Unlock()
		addr := [4]byte{10, byte(n >> 16), byte(n >> 8), byte(n)}
		p := uint16(ir.Uint32())
		var chunks []uint16
		for l := ir.IntN(4) * ir.IntN(3); l > 0; l-- {
			chunks = append(chunks, uint16(ir.Uint32()))
		}
		again := ir.IntN(12)
		var msg []byte
		for i := 0; i == 0 || i == 1 && again < 2; i++ {
			if i == 1 && again == 0 {
				chunks = append([]uint16{uint16(n), uint16(n)}, chunks...) // the same peer, with more
			}
			key := fmt.Sprint(id, addr, p, chunks)
			mu.Lock()
			in := sent[key]
			if in == nil {
				in = &injected{id: id}
				sent[key] = in
			}
			mu.Unlock()
			msg = encDiscResp(id, addr, p, chunks)
			err := h.srv.HandleMessage(msg, nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1})
			mu.Lock()
			if err == nil {
				in.accepted++
			} else {
				in.refused++
			}
			mu.Unlock()
		}
		if n%16 == 5 { // a reply of another kind with the same ID
			other := encListResp(id, []wFile{{Hash: sum(msg), Name: "x"}}[:n/16%2])
			if h.srv.HandleMessage(other, nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}) == nil {
				c.Fail("kind", nil, "a file listing was accepted as the reply to discovery %d", id)
			}
			c.Obs("replies of another kind refused", 1)
		}
	}
	for round := 0; round < rounds && c.Failed() == 0; round++ {
		mu.Lock()
		sent = map[string]*injected{}
		mu.Unlock()
		n := 4 + r.IntN(12)
		type result struct {
			key   string
			resps []messages.DiscoverHostResponse
		}
		results := make([]result, n)
		var inj sync.WaitGroup
		ids := map[uint16]bool{}
		stop := make(chan struct{})
		lanDone := make(chan struct{})
		kase := map[string]any{"server": k, "round": round, "discoveries": n}
		go func() { // the network: sees the requests and answers them
			defer close(lanDone)
			lr := rand.New(rand.NewPCG(r.Uint64(), 5))
			for {
				p, ok := lan.next(20 * time.Millisecond)
				if !ok {
					select {
					case <-stop:
						return
					default:
						continue
					}
				}
				m, err := wParse(p.data)
				if err != nil || m.Type != tDiscReq {
					c.Fail("request", kase, "a discovery sent %s", clip(p.data, 64))
					continue
				}
				if ids[m.ReqID] {
					c.Fail("request-id", kase, "two discoveries at the same time have ID %d", m.ReqID)
				}
				ids[m.ReqID] = true
				idOf.Store(m.Hash.String(), m.ReqID)
				id, seen := m.ReqID, p.at
				early := lr.IntN(30)
				flooders := 1 + lr.IntN(3)
				quietOne := lr.IntN(6) == 0
				for f := 0; f < flooders; f++ {
					inj.Add(1)
					fr := rand.New(rand.NewPCG(lr.Uint64(), uint64(f)))
					go func() {
						defer inj.Done()
						if f == 0 {
							for i := 0; i < early; i++ {
								time.Sleep(time.Duration(fr.IntN(1800/max(1, early))) * time.Millisecond)
								inject(fr, id)
								if fr.IntN(3) == 0 {
									inject(fr, uint16(fr.Uint32())) // nobody's, most likely
								}
							}
						}
						if quietOne {
							return
						}
						time.Sleep(time.Until(seen.Add(time.Duration(1900+fr.IntN(95)) * time.Millisecond)))
						until := seen.Add(time.Duration(2050+fr.IntN(200)) * time.Millisecond)
						for i := 0; i < 6000 && time.Now().Before(until); i++ {
							inject(fr, id)
							if i%64 == 0 {
								time.Sleep(time.Duration(fr.IntN(1500)) * time.Microsecond)
							}
						}
					}()
				}
			}
		}()
		ok := c.Await("discovery", kase, func() {
			var dg sync.WaitGroup
			for i := 0; i < n; i++ {
				hash := sum([]byte(fmt.Sprint(k, round, i)))
				delay := time.Duration(r.IntN(300)) * time.Millisecond
				if i < 3 {
					delay = 0
				}
				dg.Add(1)
				go func() {
					defer dg.Done()
					time.Sleep(delay)
					results[i] = result{hash.String(), h.srv.DiscoverHosts(sha(hash), []uint16{})}
					if v, ok := idOf.Load(hash.String()); ok {
						// it has returned, so nobody waits any more
						err := h.srv.HandleMessage(encDiscResp(v.(uint16), [4]byte{9, 9, 9, 9}, uint16(i), nil), nil, lan.addr)
						if err == nil {
							c.Fail("late-accepted", kase, "a reply to a discovery that had returned was accepted")
						}
					}
				}()
			}
			dg.Wait()
		})
		if !ok {
			close(stop)
			return
		}
		if !c.Await("delivery", kase, func() { inj.Wait() }) {
			close(stop)
			return
		}
		close(stop)
		<-lanDone
		c.Beat()
		// compare
		mu.Lock()
		want := map[uint16]map[string]*injected{}
		accepted, refused := 0, 0
		for key, in := range sent {
			refused += in.refused
			if in.accepted > 0 {
				accepted += in.accepted
				if want[in.id] == nil {
					want[in.id] = map[string]*injected{}
				}
				want[in.id][key] = in
			}
		}
		mu.Unlock()
		c.Obs("replies accepted", accepted)
		c.Obs("replies refused", refused)
		unseen := false
		for i, res := range results {
			v, ok := idOf.Load(res.key)
			if !ok {
				unseen = true
				c.Obs("discoveries whose request was not seen", 1)
				continue
			}
			id := v.(uint16)
			got := map[string]int{}
			for _, resp := range res.resps {
				key := fmt.Sprint(resp.RequestID, resp.Address, resp.Port, resp.Chunks)
				got[key]++
				in := sent[key]
				switch {
				case in == nil || resp.RequestID != id || in.id != id:
					c.Fail("foreign", kase, "discovery %d with ID %d returned a reply that was not sent to it, at least not like this: %+v", i, id, resp)
				case in.accepted == 0:
					c.Fail("refused-returned", kase, "discovery %d returned a reply whose delivery failed", i)
				case got[key] > in.accepted:
					c.Fail("twice", kase, "discovery %d returned the reply %s %d times, which was accepted %d times", i, key, got[key], in.accepted)
				}
			}
			for key, in := range want[id] {
				if got[key] < in.accepted {
					c.Fail("lost", kase, "discovery %d with ID %d returned the reply %s %d times, which was accepted %d times", i, id, key, got[key], in.accepted)
					break
				}
			}
			c.Eval(fmt.Sprint(k, round, i))
			delete(want, id)
		}
		for id := range want {
			if unseen {
				break // may be theirs
			}
			c.Fail("accepted-for-nobody", kase, "replies with ID %d were accepted while no discovery had it", id)
		}
		if round == 0 && k%8 == 0 {
			c.Sample("round", map[string]any{"discoveries": n, "accepted": accepted, "refused": refused})
		}
	}
	// replies of another kind, and to nobody
	for i := 0; i < 200; i++ {
		id := uint16(r.Uint32())
		for _, msg := range [][]byte{encListResp(id, nil), encDiscResp(id, [4]byte{1, 2, 3, 4}, 5, nil)} {
			var err error
			if !c.Await("delivery", nil, func() { err = h.srv.HandleMessage(msg, nil, lan.addr) }) {
				return
			}
			if err == nil {
				c.Fail("stray-accepted", fmt.Sprintf("%x", msg), "a reply that nobody waits for was accepted")
			}
		}
	}
}

var _ = common.Range{}
