package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/flu-network/client/flu/messages"
)

func init() {
	register("C32", "exploration", c32)
	register("C33", "exploration", c33)
}

// The client in reference/, as it was when these checks were written, is the "earlier version".
const oldClient = "/mnt/bin/old"

// fromWire is what a datagram of an earlier version means.
func fromWire(b []byte) messages.Message {
	if off, data, ok := wData(b); ok {
		return &messages.DataPacket{Offset: off, Data: data}
	}
	m, err := wParse(b)
	must(err)
	switch m.Type {
	case tDiscReq:
		return &messages.DiscoverHostRequest{RequestID: m.ReqID, Sha1Hash: *sha(m.Hash), Chunks: m.Chunks}
	case tDiscResp:
		return &messages.DiscoverHostResponse{RequestID: m.ReqID, Address: m.Addr, Port: m.Port, Chunks: m.Chunks}
	case tListReq:
		return &messages.ListFilesRequest{RequestID: m.ReqID, Sha1Hash: sha(m.Hash)}
	case tListResp:
		l := &messages.ListFilesResponse{RequestID: m.ReqID}
		for _, f := range m.Files {
			l.Files = append(l.Files, messages.ListFilesEntry{SizeInBytes: f.Size, ChunkCount: f.Count, ChunkSizeInBytes: f.ChunkSize,
				ChunksDownloaded: f.Downloaded, Sha1Hash: sha(f.Hash), FileName: f.Name})
		}
		return l
	case tOpen:
		return &messages.OpenConnectionRequest{Sha1Hash: sha(m.Hash), Chunk: m.Chunk, WindowCap: m.Cap}
	}
	return &messages.DataPacketAck{Offset: m.Offset}
}

// oldWire is the datagram that an earlier version sends.
func oldWire(m messages.Message) []byte {
	switch x := m.(type) {
	case *messages.DataPacket:
		return encData(x.Offset, x.Data)
	case *messages.OpenConnectionRequest:
		return encOpen(x.Sha1Hash.Data, x.Chunk, x.WindowCap)
	}
	return wireOf(m)
}

func c32(c *Ctx) {
	c.Rule(`Messages: random messages of all seven types, encoded by the published layout (an independent codec) and decoded by the
		code, and the other way around. Hosts: LANs of real daemons of which every other one runs an earlier version of the client
		(reference/), driven through the history of C31: sharing, discovery, listings, fetches both ways, kills, restarts. Distinct
		by encoded bytes and by history.`)
	Par(8, 64, func(k int) {
		r := c.Rng("message", k)
		for i := 0; i < c.N(700, 20000); i++ {
			m := randMessage(r)
			want := normMsg(m)
			kase := describe(m)
			wire := oldWire(m)
			c.Guard("compat-panic", kase, func() {
				var got messages.Message
				var err error
				if wire[0] == tData {
					if p := messages.ParseAsDataPacket(wire); p != nil {
						got = p
					}
				} else {
					got, err = messages.Parse(wire)
				}
				if err != nil || got == nil || !reflect.DeepEqual(normMsg(got), want) {
					c.Fail("old-datagram", kase, "an earlier version sends %s as %s, which is read as %s (%v)", kase, clip(wire, 200), describe(got), err)
				}
				enc := m.Serialize()
				if _, _, ok := wData(enc); ok != (m.Type() == tData) {
					c.Fail("new-datagram", kase, "%s is sent as %s", kase, clip(enc, 200))
				} else if _, err := wParse(enc); err != nil && !ok {
					c.Fail("new-datagram", kase, "%s is sent as %s, which an earlier version cannot read: %v", kase, clip(enc, 200), err)
				} else if got := fromWire(enc); !reflect.DeepEqual(normMsg(got), want) {
					c.Fail("new-datagram", kase, "%s is sent as %s, which an earlier version reads as %s", kase, clip(enc, 200), describe(got))
				}
			})
			c.Eval(string(wire[:min(len(wire), 300)]))
		}
	})
	// the opening packet of a transfer
	Par(8, c.N(500, 5000), func(k int) {
		r := c.Rng("opening", k)
		h, size, data := randHash(r), randU32(r), randBytes(r, r.IntN(1100))
		c.Guard("compat-panic", nil, func() {
			p := messages.ParseAsDataPacket(encOpening(h, size, data))
			if p == nil {
				c.Fail("old-datagram", nil, "an opening packet with %d bytes is refused", len(data))
				return
			}
			gh, gs, gd := p.Split()
			if gh == nil || gh.Data != h || gs != size || !bytes.Equal(gd, data) {
				c.Fail("old-datagram", nil, "an opening packet of hash %v size %d is read as hash %v size %d", h, size, gh, gs)
			}
		})
		c.Eval(fmt.Sprintf("opening %v %d", h, len(data)))
	})
	var mu sync.Mutex
	Par(4, c.N(3, 24), func(k int) {
		if c.Failed() > 10 {
			return
		}
		mu.Lock()
		l := newLanLab(c, k, 3+k%2)
		mu.Unlock()
		defer l.close()
		for i, h := range l.hosts {
			if (i+k)%2 == 0 {
				h.bin = oldClient
				l.step("host %d runs an earlier version", i)
			}
		}
		l.run(c.Rng("lab", k), k)
		c.Eval(strings.Join(l.log, ";"))
		c.Sample("history", l.log)
	})
}

// writeOld writes a catalogue directory as earlier versions do. It returns what they list.
func writeOld(dir, dataDir string, recs []*oldRec) Listing {
	type record struct {
		FilePath    string
		SizeInBytes int64
		Sha1Hash    string
		ChunkSize   int
		RawFilePath []byte `json:",omitempty"`
	}
	index := struct {
		Pid         int
		LastTouched int64
		Index       map[string]record
		DataDir     string
	}{os.Getpid() + 7, time.Now().Unix() - 100000, map[string]record{}, dataDir}
	want := Listing{}
	for _, o := range recs {
		k := o.hash.String()
		rec := record{o.path, o.size, k, o.chunk, nil}
		if !utf8.ValidString(o.path) {
			rec.RawFilePath = []byte(o.path)
		}
		index.Index[k] = rec
		n := chunkCount(o.size, o.chunk)
		b := binary.BigEndian.AppendUint64(nil, uint64(n))
		words := make([]uint64, (n+63)/64)
		have := 0
		for i := 0; i < n; i++ {
			if o.have(i) {
				words[i/64] |= 1 << (i % 64)
				have++
			}
		}
		for _, w := range words {
			b = binary.BigEndian.AppendUint64(b, w)
		}
		write(filepath.Join(dir, k), b)
		want[k] = View{o.path, o.size, o.chunk, n, have, memberString(o.have, n)}
	}
	data, err := json.Marshal(index)
	must(err)
	write(filepath.Join(dir, "index.json"), data)
	return want
}

type oldRec struct {
	path  string
	size  int64
	chunk int
	hash  Hash
	data  []byte // nil if there is no file
	have  func(i int) bool
}

func c33(c *Ctx) {
	c.Rule(`Directories: catalogues of 0 to 40 files (sizes 0 to 2^47, all chunk sizes, up to 65536 chunks, none, some or all of them
		available, odd paths), written by an independent implementation of the format of earlier versions, are opened, listed, read,
		worked on and opened again. Daemons: the whole history of C31 on hosts that run an earlier version (reference/) and are
		upgraded when they are killed and started again, also during a download. Distinct by directory and by history.`)
	Par(8, c.N(600, 12000), func(k int) {
		if c.Failed() < 20 {
			c33Dir(c, c.Rng("dir", k))
		}
	})
	var mu sync.Mutex
	Par(4, c.N(3, 24), func(k int) {
		if c.Failed() > 10 {
			return
		}
		mu.Lock()
		l := newLanLab(c, k, 3+k%2)
		mu.Unlock()
		defer l.close()
		for _, h := range l.hosts {
			h.bin = oldClient
		}
		l.upgrade = true
		l.run(c.Rng("upgrade", k), k+1) // with a kill during a download more often than not
		c.Eval(strings.Join(l.log, ";"))
		c.Sample("history", l.log)
	})
}

func c33Dir(c *Ctx, r *rand.Rand) {
	base := c.Dir("old")
	defer c.rm(base)
	dir, down := filepath.Join(base, "cat"), filepath.Join(base, "down")
	var recs []*oldRec
	n := r.IntN(8)
	if r.IntN(10) == 0 {
		n = r.IntN(40)
	}
	for i := 0; i < n; i++ {
		o := &oldRec{chunk: []int{1, 2, 100, 1024, 4096, 1 << 22, 1 << 23, 1<<32 - 1, 1 + r.IntN(1<<20)}[r.IntN(9)]}
		count := []int{0, 1, 2, 63, 64, 65, 127, 128, 129, 1000, 65535, 65536, r.IntN(500)}[r.IntN(13)]
		if o.chunk > 1<<20 && r.IntN(2) == 0 {
			count = r.IntN(5)
		}
		if count > 0 {
			o.size = int64(count-1)*int64(o.chunk) + 1 + r.Int64N(int64(o.chunk))
		}
		o.path = filepath.Join(base, []string{"work", "down", "work/<&>"}[r.IntN(3)], strings.ReplaceAll(oddName(r, i), "\x00", ""))
		o.hash = Hash(randBytes(r, 20))
		if o.size < 200000 && r.IntN(3) > 0 {
			o.data = randBytes(r, int(o.size))
			o.hash = sum(o.data)
			if o.size == 0 {
				for _, other := range recs {
					if other.hash == o.hash {
						o.hash = Hash(randBytes(r, 20))
						o.data = nil
					}
				}
			}
		}
		if o.data != nil {
			write(o.path, o.data)
		}
		switch seed := r.IntN(1000); r.IntN(5) {
		case 0:
			o.have = func(int) bool { return false }
		case 1, 2:
			o.have = func(int) bool { return true }
		case 3:
			o.have = func(i int) bool { return i != seed%max(1, count) }
		default:
			o.have = func(i int) bool { return (i*7919+seed)%5 < 2 }
		}
		recs = append(recs, o)
	}
	dataDir := dir
	if r.IntN(3) == 0 {
		dataDir = "/somewhere/else" // it was moved
	}
	want := writeOld(dir, dataDir, recs)
	kase := map[string]any{"files": len(recs), "listing": want}
	check := func(when string) *Store {
		got, st, err := reopened(dir, down)
		if err != nil {
			c.Fail("open", kase, "%s: a catalogue of an earlier version with %d files cannot be used: %v", when, len(recs), err)
			return nil
		}
		if d := got.diff(want); d != "" {
			c.Fail("listing", kase, "%s: a catalogue of an earlier version: %s", when, d)
			return nil
		}
		return st
	}
	c.Guard("compat-panic", kase, func() {
		st := check("opened")
		if st == nil {
			return
		}
		for _, o := range recs {
			if o.data == nil {
				continue
			}
			cs := chunkCount(o.size, o.chunk)
			for t := 0; t < 4 && cs > 0; t++ {
				i := r.IntN(cs)
				rd, err := st.Cat.GetChunkReader(sha(o.hash), int64(i))
				if !o.have(i) {
					if err == nil {
						c.Fail("reader", kase, "chunk %d, which an earlier version did not have, can be read", i)
						rd.Close()
					}
					if err := st.Cat.SaveChunk(sha(o.hash), uint16(i), chunkOf(o.data, o.chunk, i)); err != nil {
						c.Fail("save", kase, "a chunk of a download that an earlier version began cannot be saved: %v", err)
						return
					}
					had := o.have
					o.have = func(x int) bool { return x == i || had(x) }
					continue
				}
				if err != nil {
					c.Fail("reader", kase, "chunk %d of a file that an earlier version shared: %v", i, err)
					return
				}
				if rd.Hash.Data != sum(chunkOf(o.data, o.chunk, i)) {
					c.Fail("reader", kase, "chunk %d of a file that an earlier version shared has other bytes", i)
				}
				rd.Close()
			}
			k := o.hash.String()
			v := want[k]
			v.Have = 0
			for i := 0; i < v.Count; i++ {
				if o.have(i) {
					v.Have++
				}
			}
			v.Members = memberString(o.have, v.Count)
			want[k] = v
		}
		// some are removed, and one is added
		for _, o := range recs {
			if r.IntN(3) == 0 {
				if err := st.Cat.UnshareFile(sha(o.hash)); err != nil {
					c.Fail("unshare", kase, "a file of an earlier version cannot be removed from the index: %v", err)
					return
				}
				delete(want, o.hash.String())
			}
		}
		more := randBytes(r, 20+r.IntN(100))
		p := filepath.Join(base, "work", "more")
		write(p, more)
		if _, err := st.Cat.ShareFile(p); err != nil {
			c.Fail("share", kase, "nothing can be added to a catalogue of an earlier version: %v", err)
			return
		}
		want[sum(more).String()] = View{p, int64(len(more)), defaultChunk, 1, 1, "0-0 "}
		check("opened again")
	})
	c.Eval(fmt.Sprintf("%v", want))
	c.Obs("files of catalogues of earlier versions", len(recs))
	c.Sample("directory", len(recs))
}
