package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
)

func init() {
	register("C10", "exploration", c10)
	register("C11", "exploration", c11)
	register("C23", "exploration", c23)
}

func sha(h Hash) *common.Sha1Hash { return &common.Sha1Hash{Data: h} }

func randHash(r *rand.Rand) (h Hash) {
	switch r.IntN(12) {
	case 0:
		return blankHash
	case 1:
		return Hash{}
	case 2:
		h = blankHash
		h[r.IntN(20)] ^= 1 << r.IntN(8)
		return h
	}
	for i := range h {
		h[i] = byte(r.Uint32())
	}
	return h
}

func randU16(r *rand.Rand) uint16 {
	switch r.IntN(4) {
	case 0:
		return []uint16{0, 1, 254, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff}[r.IntN(11)]
	}
	return uint16(r.Uint32())
}

func randU32(r *rand.Rand) uint32 {
	if r.IntN(4) == 0 {
		return []uint32{0, 1, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 0xffffffff, 0x01020304}[r.IntN(11)]
	}
	return r.Uint32() >> r.IntN(32)
}

func randU64(r *rand.Rand) uint64 {
	if r.IntN(4) == 0 {
		return []uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0), 0x0102030405060708}[r.IntN(8)]
	}
	return r.Uint64() >> r.IntN(64)
}

func randChunks(r *rand.Rand, n int) []uint16 {
	result := make([]uint16, n)
	for i := range result {
		result[i] = randU16(r)
	}
	return result
}

func randName(r *rand.Rand, n int) string {
	b := make([]byte, n)
	mode := r.IntN(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte('a' + r.IntN(26))
		case 1:
			b[i] = byte(r.Uint32())
		default:
			b[i] = "ab/.\x00\xff\n%\xc3\xa9 "[r.IntN(11)]
		}
	}
	return string(b)
}

// normMsg makes nil and empty lists compare as equal.
func normMsg(m messages.Message) messages.Message {
	switch x := m.(type) {
	case *messages.DiscoverHostRequest:
		y := *x
		y.Chunks = append([]uint16{}, x.Chunks...)
		return &y
	case *messages.DiscoverHostResponse:
		y := *x
		y.Chunks = append([]uint16{}, x.Chunks...)
		return &y
	case *messages.ListFilesResponse:
		y := *x
		y.Files = append([]messages.ListFilesEntry{}, x.Files...)
		return &y
	case *messages.DataPacket:
		y := *x
		y.Data = append([]byte{}, x.Data...)
		return &y
	}
	return m
}

func describe(m any) string {
	s := fmt.Sprintf("%+v", m)
	if l, ok := m.(*messages.ListFilesResponse); ok {
		s = fmt.Sprintf("list response %d with %d files", l.RequestID, len(l.Files))
		if len(l.Files) > 0 {
			s += fmt.Sprintf(", first %+v", l.Files[0])
		}
	}
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// roundTrip encodes and decodes a message and compares. It also returns the encoding.
func roundTrip(c *Ctx, m messages.Message) (enc []byte, dec messages.Message) {
	before := describe(m)
	c.Guard("codec-panic", before, func() {
		enc = m.Serialize()
		if d, ok := m.(*messages.DataPacket); ok {
			p := messages.ParseAsDataPacket(enc)
			if p == nil {
				c.Fail("codec-reject", before, "the encoding of %s is refused", before)
				return
			}
			dec = p
			if len(enc) == 0 || enc[0] != d.Type() {
				c.Fail("codec-type", before, "the encoding of a data packet starts with %s", clip(enc, 1))
			}
		} else {
			var err error
			dec, err = messages.Parse(enc)
			if err != nil || dec == nil {
				dec = nil
				c.Fail("codec-reject", before, "the encoding of %s is refused: %v", before, err)
				return
			}
			if dec.Type() != m.Type() {
				c.Fail("codec-type", before, "type %d decodes as type %d", m.Type(), dec.Type())
			}
		}
	})
	return
}

func c10(c *Ctx) {
	c.Rule(`messages of all seven types: every 16-bit request ID, chunk and window value per type in turn, every list length
		0..300, every name length 0..300, boundary and random values elsewhere, data packets of 0..65000 bytes; run from 8
		goroutines at once. Non-trivial: a message whose decoding was compared field by field; distinct by encoded bytes.`)
	var mu sync.Mutex
	type kept struct {
		enc, copyOf []byte
		dec, want   messages.Message
	}
	try := func(m, want messages.Message, pool *[]kept) {
		enc, dec := roundTrip(c, m)
		if dec == nil {
			c.Eval("")
			return
		}
		c.Eval(string(enc[:min(len(enc), 300)]))
		if !reflect.DeepEqual(normMsg(dec), normMsg(want)) {
			c.Fail("codec-unequal", describe(m), "%T: sent %s, decoded %s", m, describe(want), describe(dec))
		}
		c.Obs(fmt.Sprintf("%T", m)[len("*messages."):], 1)
		mu.Lock()
		*pool = append(*pool, kept{enc, bytes.Clone(enc), dec, want})
		mu.Unlock()
	}
	// what was encoded or decoded earlier must not change when more messages are processed
	recheck := func(pool *[]kept) {
		mu.Lock()
		defer mu.Unlock()
		for _, k := range *pool {
			if !bytes.Equal(k.enc, k.copyOf) {
				c.Fail("codec-aliased", describe(k.want), "an encoding changed after other messages were encoded: %s", firstDiff(k.enc, k.copyOf))
				break
			}
			if !reflect.DeepEqual(normMsg(k.dec), normMsg(k.want)) {
				c.Fail("codec-aliased", describe(k.want), "a decoded message changed after others were decoded")
				break
			}
		}
		*pool = (*pool)[:0]
	}
	// every 16-bit value in every 16-bit field
	Par(8, 256, func(hi int) {
		r := c.Rng("u16", hi)
		var pool []kept
		for lo := 0; lo < 256; lo++ {
			v := uint16(hi<<8 | lo)
			h := randHash(r)
			for _, m := range []messages.Message{
				&messages.DiscoverHostRequest{RequestID: v, Sha1Hash: *sha(h), Chunks: []uint16{randU16(r), v}},
				&messages.DiscoverHostResponse{RequestID: v, Address: [4]byte{byte(lo), byte(hi), byte(r.Uint32()), 255 - byte(lo)}, Port: ^v, Chunks: []uint16{v}},
				&messages.ListFilesRequest{RequestID: v, Sha1Hash: sha(h)},
				&messages.ListFilesResponse{RequestID: v},
				&messages.OpenConnectionRequest{Sha1Hash: sha(h), Chunk: v, WindowCap: ^v - 7},
				&messages.OpenConnectionRequest{Sha1Hash: sha(h), Chunk: v>>1 + 3, WindowCap: v},
				&messages.DataPacketAck{Offset: uint32(v)<<16 | uint32(^v)},
				&messages.DataPacket{Offset: uint32(v)<<16 | uint32(v>>3), Data: []byte{byte(lo), byte(hi)}},
			} {
				try(m, m, &pool)
			}
		}
		recheck(&pool)
	})
	// every list length; longer lists must come out as a prefix
	Par(8, 301, func(n int) {
		r := c.Rng("lists", n)
		var pool []kept
		for rep := 0; rep < c.N(6, 60); rep++ {
			ch := randChunks(r, n)
			req := &messages.DiscoverHostRequest{RequestID: randU16(r), Sha1Hash: *sha(randHash(r)), Chunks: ch}
			resp := &messages.DiscoverHostResponse{RequestID: randU16(r), Address: [4]byte(be32(randU32(r))), Port: randU16(r), Chunks: ch}
			if n <= 255 {
				try(req, req, &pool)
				try(resp, resp, &pool)
			} else {
				if _, d := roundTrip(c, req); d != nil {
					got, ok := d.(*messages.DiscoverHostRequest)
					if !ok || !isPrefix(got.Chunks, ch) || got.RequestID != req.RequestID || got.Sha1Hash != req.Sha1Hash {
						c.Fail("codec-garbled", describe(req), "a list of %d chunks decodes as %s", n, describe(d))
					}
				}
				if _, d := roundTrip(c, resp); d != nil {
					got, ok := d.(*messages.DiscoverHostResponse)
					if !ok || !isPrefix(got.Chunks, ch) || got.RequestID != resp.RequestID || got.Address != resp.Address || got.Port != resp.Port {
						c.Fail("codec-garbled", describe(resp), "a list of %d chunks decodes as %s", n, describe(d))
					}
				}
				c.Eval(fmt.Sprintf("long list %d %d", n, rep))
				c.Obs("cut lists", 2)
			}
			name := randName(r, n)
			files := make([]messages.ListFilesEntry, 1+r.IntN(4))
			for i := range files {
				files[i] = randEntry(r, randName(r, r.IntN(256)))
			}
			at := r.IntN(len(files))
			files[at].FileName = name
			lr := &messages.ListFilesResponse{RequestID: randU16(r), Files: files}
			want := &messages.ListFilesResponse{RequestID: lr.RequestID, Files: append([]messages.ListFilesEntry{}, files...)}
			if n <= 255 {
				try(lr, want, &pool)
			} else if _, d := roundTrip(c, lr); d != nil {
				c.Obs("cut names", 1)
				got, ok := d.(*messages.ListFilesResponse)
				if ok && len(got.Files) == len(files) && len(got.Files[at].FileName) <= len(name) &&
					got.Files[at].FileName == name[:len(got.Files[at].FileName)] {
					want.Files[at].FileName = got.Files[at].FileName
				}
				if !reflect.DeepEqual(d, want) {
					c.Fail("codec-garbled", describe(lr), "a name of %d bytes decodes as %s", n, describe(d))
				}
				c.Eval(fmt.Sprintf("long name %d %d", n, rep))
			}
		}
		recheck(&pool)
	})
	// everything at random
	n := c.N(40000, 1000000)
	Par(8, 64, func(k int) {
		r := c.Rng("random", k)
		var pool []kept
		for i := 0; i < n/64; i++ {
			m := randMessage(r)
			try(m, m, &pool)
			if i%100 == 99 {
				recheck(&pool)
			}
			if i == 0 {
				c.Sample(fmt.Sprintf("%T", m), describe(m))
			}
		}
		recheck(&pool)
	})
	// big ones
	Par(8, c.N(60, 600), func(k int) {
		r := c.Rng("big", k)
		var pool []kept
		size := []int{1000, 1023, 1024, 1025, 4096, 65000, r.IntN(65000)}[k%7]
		data := make([]byte, size)
		for i := range data {
			data[i] = byte(r.Uint32())
		}
		p := &messages.DataPacket{Offset: randU32(r), Data: data}
		try(p, p, &pool)
		files := make([]messages.ListFilesEntry, []int{100, 1000, 255, 256, 257, 65535}[k%6]>>((k/6)%3))
		for i := range files {
			files[i] = randEntry(r, randName(r, r.IntN(30)))
		}
		l := &messages.ListFilesResponse{RequestID: randU16(r), Files: files}
		try(l, l, &pool)
		recheck(&pool)
	})
	// the opening packet's split
	Par(8, c.N(2000, 20000), func(k int) {
		r := c.Rng("split", k)
		h, size, data := randHash(r), randU32(r), []byte(randName(r, r.IntN(1100)))
		c.Guard("codec-panic", nil, func() {
			p := messages.ParseAsDataPacket(encOpening(h, size, data))
			if p == nil {
				c.Fail("codec-reject", nil, "an opening packet with %d bytes is refused", len(data))
				return
			}
			gh, gs, gd := p.Split()
			if gh == nil || gh.Data != h || gs != size || !bytes.Equal(gd, data) || p.Offset != 0 {
				c.Fail("codec-split", nil, "opening packet hash %v size %d data %d bytes splits into %v %d %d", h, size, len(data), gh, gs, len(gd))
			}
		})
		c.Eval(fmt.Sprintf("split %v %d %d", h, size, len(data)))
	})
}

func isPrefix(got, all []uint16) bool {
	if len(got) > len(all) {
		return false
	}
	for i := range got {
		if got[i] != all[i] {
			return false
		}
	}
	return true
}

func randEntry(r *rand.Rand, name string) messages.ListFilesEntry {
	return messages.ListFilesEntry{SizeInBytes: randU64(r), ChunkCount: randU32(r), ChunkSizeInBytes: randU32(r),
		ChunksDownloaded: randU32(r), Sha1Hash: sha(randHash(r)), FileName: name}
}

func randMessage(r *rand.Rand) messages.Message {
	n := []int{0, 1, 2, 3, 5, 127, 128, 254, 255, r.IntN(256)}[r.IntN(10)]
	switch r.IntN(7) {
	case 0:
		return &messages.DiscoverHostRequest{RequestID: randU16(r), Sha1Hash: *sha(randHash(r)), Chunks: randChunks(r, n)}
	case 1:
		return &messages.DiscoverHostResponse{RequestID: randU16(r), Address: [4]byte(be32(randU32(r))), Port: randU16(r), Chunks: randChunks(r, n)}
	case 2:
		return &messages.ListFilesRequest{RequestID: randU16(r), Sha1Hash: sha(randHash(r))}
	case 3:
		files := make([]messages.ListFilesEntry, r.IntN(6))
		for i := range files {
			files[i] = randEntry(r, randName(r, []int{0, 1, 127, 128, 255, r.IntN(256)}[r.IntN(6)]))
		}
		return &messages.ListFilesResponse{RequestID: randU16(r), Files: files}
	case 4:
		return &messages.OpenConnectionRequest{Sha1Hash: sha(randHash(r)), Chunk: randU16(r), WindowCap: randU16(r)}
	case 5:
		return &messages.DataPacketAck{Offset: randU32(r)}
	default:
		return &messages.DataPacket{Offset: randU32(r), Data: []byte(randName(r, []int{0, 1, 1000, 1024, r.IntN(1500)}[r.IntN(5)]))}
	}
}

// wireOf is the reference encoding of a decoded message.
func wireOf(m messages.Message) []byte {
	switch x := m.(type) {
	case *messages.DiscoverHostRequest:
		return encDiscReq(x.RequestID, x.Sha1Hash.Data, x.Chunks)
	case *messages.DiscoverHostResponse:
		return encDiscResp(x.RequestID, x.Address, x.Port, x.Chunks)
	case *messages.ListFilesRequest:
		return encListReq(x.RequestID, x.Sha1Hash.Data)
	case *messages.ListFilesResponse:
		files := make([]wFile, len(x.Files))
		for i, f := range x.Files {
			files[i] = wFile{f.SizeInBytes, f.ChunkCount, f.ChunkSizeInBytes, f.ChunksDownloaded, Hash{}, f.FileName}
			if f.Sha1Hash != nil {
				files[i].Hash = f.Sha1Hash.Data
			}
		}
		return encListResp(x.RequestID, files)
	case *messages.OpenConnectionRequest:
		return encOpen(x.Sha1Hash.Data, x.Chunk, x.WindowCap)[:25]
	case *messages.DataPacketAck:
		return encAck(x.Offset)
	}
	return nil
}

// c11one parses one input in every way and compares with the reference decoder.
func c11one(c *Ctx, in []byte) {
	orig := bytes.Clone(in)
	kase := clip(in, 400)
	var m messages.Message
	var err error
	ok := c.Guard("parser-panic", kase, func() {
		m, err = messages.Parse(in)
	})
	if !ok {
		c.Eval("p" + string(in))
		return
	}
	want, werr := wParse(in)
	key := ""
	switch {
	case err != nil && m != nil && !reflect.ValueOf(m).IsNil():
		c.Fail("parser-both", kase, "both a message and an error: %v", err)
	case err == nil && (m == nil || reflect.ValueOf(m).IsNil()):
		c.Fail("parser-neither", kase, "neither a message nor an error")
	case err == nil && werr != nil && !(len(in) > 0 && in[0] == tData):
		c.Fail("parser-accepts", kase, "an input that is %v is accepted as %s", werr, describe(m))
	case err != nil && werr == nil:
		c.Fail("parser-rejects", kase, "a complete message of type %d is refused: %v", want.Type, err)
	case err == nil && werr == nil:
		key = "ok" + string(in[:min(len(in), 80)])
		var again []byte
		c.Guard("parser-panic", kase, func() { again = wireOf(m) })
		if !bytes.Equal(again, in[:want.Consumed]) {
			c.Fail("parser-differs", kase, "decoded as %s: %s", describe(m), firstDiff(again, in[:want.Consumed]))
		}
		c.Obs("accepted", 1)
	default:
		key = "no" + string(in[:min(len(in), 80)])
		c.Obs("refused", 1)
	}
	if !bytes.Equal(in, orig) {
		c.Fail("parser-modifies", kase, "the parser modified its input")
	}
	// the same bytes with different surroundings, parsed again
	padded := make([]byte, len(in)+64)
	for i := range padded {
		padded[i] = byte(0xA5 + i)
	}
	copy(padded, in)
	c.Guard("parser-panic", kase, func() {
		m2, err2 := messages.Parse(padded[:len(in)])
		if (err2 == nil) != (err == nil) || err == nil && !reflect.DeepEqual(m, m2) {
			c.Fail("parser-context", kase, "the same bytes in a longer buffer give %s/%v instead of %s/%v", describe(m2), err2, describe(m), err)
		}
		// as a data packet
		p := messages.ParseAsDataPacket(in)
		if len(in) < 5 {
			if p != nil {
				c.Fail("parser-accepts", kase, "%d bytes decode as data packet %+v", len(in), p)
			}
			return
		}
		if p == nil {
			c.Fail("parser-rejects", kase, "a data packet of %d bytes is refused", len(in))
			return
		}
		if !bytes.Equal(be32(p.Offset), in[1:5]) || !bytes.Equal(p.Data, in[5:]) {
			c.Fail("parser-differs", kase, "data packet decodes as offset %d and %s", p.Offset, clip(p.Data, 40))
		}
		h, size, data := p.Split()
		if len(in) < 29 {
			if h != nil {
				c.Fail("parser-accepts", kase, "a packet with %d data bytes splits into an opening packet", len(in)-5)
			}
		} else if h == nil || !bytes.Equal(h.Data[:], in[5:25]) || !bytes.Equal(be32(size), in[25:29]) || !bytes.Equal(data, in[29:]) {
			c.Fail("parser-differs", kase, "the opening packet is split wrongly: %v %d %s", h, size, clip(data, 20))
		}
	})
	if !bytes.Equal(in, orig) {
		c.Fail("parser-modifies", kase, "the parser modified its input")
	}
	c.Eval(key)
}

func c11(c *Ctx) {
	c.Rule(`all inputs of 0, 1 and 2 bytes; for each message type: valid messages, every truncation, extensions, single-byte
		corruptions at every position, every element count with too few bytes; random bytes up to 65535. Each is judged by an
		independent reference decoder. Non-trivial: judged accepted or refused in agreement; distinct by leading bytes.`)
	c11one(c, nil)
	c11one(c, []byte{})
	Par(8, 256, func(a int) {
		c11one(c, []byte{byte(a)})
		for b := 0; b < 256; b++ {
			c11one(c, []byte{byte(a), byte(b)})
		}
	})
	Par(8, c.N(140, 3000), func(k int) {
		r := c.Rng("mut", k)
		var m messages.Message
		for m == nil || m.Type() == tData {
			m = randMessage(r)
		}
		v := wireOf(m)
		if l, ok := m.(*messages.ListFilesResponse); ok && len(l.Files) > 3 {
			l.Files = l.Files[:3]
			v = wireOf(m)
		}
		c.Sample("valid", clip(v, 60))
		c11one(c, v)
		for n := 0; n < len(v); n++ { // truncations
			c11one(c, v[:n:n])
		}
		for n := 1; n < 12; n++ { // extensions
			c11one(c, append(bytes.Clone(v), make([]byte, n*r.IntN(20))...))
		}
		for pos := 0; pos < len(v) && pos < 400; pos++ { // corruptions
			for _, x := range []byte{v[pos] ^ 1, v[pos] ^ 0x80, 0, 255, byte(r.Uint32())} {
				w := bytes.Clone(v)
				w[pos] = x
				c11one(c, w)
			}
		}
	})
	// inconsistent counts
	Par(8, 256, func(n int) {
		for _, have := range []int{0, 1, n, 2*n - 1, 2 * n, 2*n + 1, 700} {
			if have < 0 {
				continue
			}
			body := bytes.Repeat([]byte{7, 9, 200}, have)[:have]
			c11one(c, cat([]byte{tDiscReq}, make([]byte, 22), []byte{byte(n)}, body))
			c11one(c, cat([]byte{tDiscResp}, make([]byte, 8), []byte{byte(n)}, body))
			c11one(c, cat([]byte{tListResp, 1, 2}, be16(uint16(n)), bytes.Repeat(make([]byte, 41), have/40)))
			c11one(c, cat([]byte{tListResp, 1, 2, byte(n), 0}, body))
			c11one(c, cat([]byte{tListResp, 1, 2, 0, 1}, make([]byte, 40), []byte{byte(n)}, body))
		}
	})
	Par(8, c.N(20000, 600000), func(k int) {
		r := c.Rng("rand", k)
		n := []int{r.IntN(65536), r.IntN(1500), r.IntN(1500), r.IntN(64)}[min(k%40, 3)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint32() >> 5)
		}
		if n > 0 && k%5 != 0 {
			b[0] = byte(r.IntN(8))
		}
		if n > 0 && k%7 == 0 { // sparse: small counts
			for i := 1; i < n; i++ {
				if r.IntN(4) > 0 {
					b[i] = 0
				}
			}
		}
		c11one(c, b)
	})
}

func c23(c *Ctx) {
	c.Rule(`random, patterned and near-blank hashes in both letter cases and mixed; texts of every length 0..60 and with each
		character replaced by non-hex ones; byte slices of every length 0..64. Distinct by input.`)
	hexDigits := "0123456789abcdef"
	ref := func(h Hash) string {
		b := make([]byte, 0, 40)
		for _, x := range h {
			b = append(b, hexDigits[x>>4], hexDigits[x&15])
		}
		return string(b)
	}
	upper := func(s string, r *rand.Rand, mode int) string {
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'f' && (mode == 1 || mode == 2 && r.IntN(2) == 0) {
				b[i] -= 32
			}
		}
		return string(b)
	}
	isHex := func(s string) bool {
		if len(s) != 40 {
			return false
		}
		for i := 0; i < 40; i++ {
			x := s[i]
			if !(x >= '0' && x <= '9' || x >= 'a' && x <= 'f' || x >= 'A' && x <= 'F') {
				return false
			}
		}
		return true
	}
	text := func(s string) {
		c.Guard("hash-panic", s, func() {
			t := sha(Hash{9, 8, 7, 255})
			was := t.Data
			err := t.FromStringSafe(s)
			if isHex(s) {
				var want Hash
				for i := range want {
					fmt.Sscanf(s[2*i:2*i+2], "%02x", &want[i])
				}
				if err != nil || t.Data != want {
					c.Fail("hash-text", s, "%q parses to %v, %v", s, t, err)
				}
			} else {
				if err == nil {
					c.Fail("hash-accepts", s, "%q is accepted as %v", s, t)
				}
				if t.Data != was {
					c.Fail("hash-clobbers", s, "refusing %q changed the target", s)
				}
			}
		})
		c.Eval("t" + s)
	}
	one := func(h Hash, r *rand.Rand) {
		c.Guard("hash-panic", h.String(), func() {
			x := sha(h)
			s := x.String()
			if len(s) != 40 || !isHex(s) || upper(s, r, 1) != upper(ref(h), r, 1) {
				c.Fail("hash-string", h.String(), "%x prints as %q", h[:], s)
				return
			}
			for mode := 0; mode < 3; mode++ {
				v := upper(ref(h), r, mode)
				y := sha(Hash{1, 2, 3})
				if err := y.FromStringSafe(v); err != nil || y.Data != h {
					c.Fail("hash-text", v, "%q parses to %v, %v", v, y, err)
				}
				z := (&common.Sha1Hash{}).FromString(v)
				if z == nil || z.Data != h {
					c.Fail("hash-text", v, "FromString(%q) gives %v", v, z)
				}
			}
			if !bytes.Equal(x.Slice(), h[:]) || !bytes.Equal(x.SliceCopy(), h[:]) || x.Array() == nil || *x.Array() != h {
				c.Fail("hash-bytes", h.String(), "byte forms differ: %x %x", x.Slice(), x.SliceCopy())
			}
			cp := x.SliceCopy()
			if len(cp) == 20 {
				cp[0] ^= 255
				if x.Data != h {
					c.Fail("hash-alias", h.String(), "changing a copied slice changes the hash")
				}
			}
			in := append([]byte{}, h[:]...)
			y := (&common.Sha1Hash{}).FromSlice(in)
			w := sha(Hash{5})
			err := w.FromSliceSafe(in)
			if y == nil || y.Data != h || err != nil || w.Data != h || !bytes.Equal(in, h[:]) {
				c.Fail("hash-bytes", h.String(), "from bytes: %v %v %v", y, w, err)
			}
			if x.IsBlank() != (h == blankHash) {
				c.Fail("hash-blank", h.String(), "IsBlank() is %v", x.IsBlank())
			}
			if b := sha(h).Blank(); b == nil || b.Data != blankHash || !b.IsBlank() {
				c.Fail("hash-blank", h.String(), "Blank() gives %v", b)
			}
		})
		c.Eval("h" + string(h[:]))
	}
	r := c.Rng("x", 0)
	one(Hash{}, r)
	one(blankHash, r)
	for i := 0; i < 20; i++ {
		for v := 0; v < 256; v++ { // one byte off the blank and off the zero hash, every value
			h := blankHash
			h[i] = byte(v)
			one(h, r)
			h = Hash{}
			h[i] = byte(v)
			one(h, r)
		}
	}
	for v := 0; v < 256; v++ {
		var h Hash
		for i := range h {
			h[i] = byte(v + i)
		}
		one(h, r)
	}
	Par(8, c.N(40000, 1000000), func(k int) {
		r := c.Rng("rand", k)
		one(randHash(r), r)
	})
	base := "0123456789abcdefABCDEF0123456789abcdefAB"
	for n := 0; n <= 100; n++ {
		text((base + base + base)[:n])
		text((base + base + base)[:n] + " ")
	}
	for pos := 0; pos < 40; pos++ {
		for v := 0; v < 256; v++ {
			b := []byte(base)
			b[pos] = byte(v)
			text(string(b))
		}
	}
	for _, s := range []string{"0x" + base[:38], "0x" + base, " " + base[:39], base + "\n", "\n" + base, base[:39] + "\u0661", "-" + base[:39], "+" + base[:39], base[:20] + "_" + base[:19]} {
		text(s)
	}
	Par(8, c.N(20000, 400000), func(k int) {
		r := c.Rng("text", k)
		text(randName(r, r.IntN(60)))
	})
	for n := 0; n <= 64; n++ {
		in := bytes.Repeat([]byte{0xAB}, n)
		c.Guard("hash-panic", n, func() {
			t := sha(Hash{9, 8})
			was := t.Data
			err := t.FromSliceSafe(in)
			if n == 20 && (err != nil || !bytes.Equal(t.Slice(), in)) || n != 20 && (err == nil || t.Data != was) {
				c.Fail("hash-bytes", n, "FromSliceSafe of %d bytes: %v, hash %v", n, err, t)
			}
		})
		c.Eval(fmt.Sprintf("slice %d", n))
	}
	c.Sample("hash", randHash(r).String())
	c.Sample("text", base[:39]+"g")
}
