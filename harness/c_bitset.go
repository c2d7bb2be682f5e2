package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sort"

	"github.com/flu-network/client/common/bitset"
)

func init() {
	register("C12", "exploration", c12)
	register("C13", "exploration", c13)
	register("C14", "exploration", c14)
}

// setModel is the mathematical set that a bitset is compared with.
type setModel struct {
	m    map[uint64]bool
	size int
}

func (s *setModel) clone() *setModel {
	t := &setModel{m: map[uint64]bool{}, size: s.size}
	for k := range s.m {
		t.m[k] = true
	}
	return t
}

// setDiffers compares a bitset with its model and returns "" if they agree.
func setDiffers(b *bitset.Bitset, m *setModel, r *rand.Rand) string {
	if b.Size() != m.size {
		return fmt.Sprintf("size is %d, want %d", b.Size(), m.size)
	}
	if b.Count() != len(m.m) {
		return fmt.Sprintf("count is %d, want %d", b.Count(), len(m.m))
	}
	if full := len(m.m) == m.size; b.Full() != full {
		return fmt.Sprintf("full is %v, want %v (%d of %d)", b.Full(), full, len(m.m), m.size)
	}
	top := uint64(m.size + 130)
	if top > 3000 {
		for k := range m.m {
			if !b.Get(k) {
				return fmt.Sprintf("%d is not a member", k)
			}
		}
		for i := 0; i < 400; i++ {
			x := r.Uint64N(top)
			if b.Get(x) != m.m[x] {
				return fmt.Sprintf("membership of %d is %v", x, b.Get(x))
			}
		}
		top = 200
	}
	for x := uint64(0); x < top; x++ {
		if b.Get(x) != m.m[x] {
			return fmt.Sprintf("membership of %d is %v", x, b.Get(x))
		}
	}
	for _, x := range []uint64{1 << 20, 1 << 31, 1 << 32, 1<<32 + 1, 1<<62 + 3, 1 << 63, 1<<63 + 1, 1<<64 - 64, 1<<64 - 1} {
		if b.Get(x) {
			return fmt.Sprintf("out-of-range %d is a member", x)
		}
	}
	return ""
}

func randIndex(r *rand.Rand, max int) uint64 {
	switch r.IntN(5) {
	case 0: // word boundaries
		w := uint64(r.IntN(max/64 + 1))
		return w*64 + []uint64{0, 1, 62, 63}[r.IntN(4)]
	case 1:
		return uint64(r.IntN(70))
	}
	return uint64(r.IntN(max))
}

func c12(c *Ctx) {
	c.Rule(`a machine with four bitsets runs random sequences of new, set, unset, fill, copy, union, intersect on random
		registers (indices biased to word boundaries, in and out of range); after every operation every register is compared
		with a set model. Plus every size 0..700 filled, filled but one, and built bit by bit. Distinct by operation sequence.`)
	n := c.N(6000, 150000)
	Par(8, n, func(k int) {
		r := c.Rng("ops", k)
		limit := []int{70000, 700, 700, 200, 130}[min(k%16, 4)]
		regs := make([]*bitset.Bitset, 4)
		mods := make([]*setModel, 4)
		var log []string
		c.Guard("bitset-panic", &log, func() {
			for i := range regs {
				size := []int{0, 1, 63, 64, 65, 128, r.IntN(limit)}[r.IntN(7)]
				regs[i], mods[i] = bitset.NewBitset(size), &setModel{m: map[uint64]bool{}, size: size}
				log = append(log, fmt.Sprintf("r%d=new(%d)", i, size))
			}
			steps := 10 + r.IntN(50)
			if limit > 1000 {
				steps = 15
			}
			for s := 0; s < steps; s++ {
				a, b, d := r.IntN(4), r.IntN(4), r.IntN(4)
				x := randIndex(r, limit)
				op := r.IntN(12)
				switch {
				case op < 4:
					log = append(log, fmt.Sprintf("r%d.set(%d)", a, x))
					regs[a].Set(x)
					mods[a].m[x] = true
					mods[a].size = max(mods[a].size, int(x)+1)
				case op < 7:
					if r.IntN(10) == 0 {
						x = []uint64{1 << 40, 1 << 63, 1<<64 - 1, uint64(mods[a].size), uint64(mods[a].size) + 64}[r.IntN(5)]
					}
					log = append(log, fmt.Sprintf("r%d.unset(%d)", a, x))
					regs[a].Unset(x)
					delete(mods[a].m, x)
				case op == 7:
					log = append(log, fmt.Sprintf("r%d.fill", a))
					regs[a].Fill()
					for i := 0; i < mods[a].size; i++ {
						mods[a].m[uint64(i)] = true
					}
				case op == 8:
					log = append(log, fmt.Sprintf("r%d=r%d.copy", d, a))
					regs[d], mods[d] = regs[a].Copy(), mods[a].clone()
				case op == 9:
					log = append(log, fmt.Sprintf("r%d=r%d.union(r%d)", d, a, b))
					u := mods[a].clone()
					for i := range mods[b].m {
						u.m[i] = true
					}
					u.size = max(mods[a].size, mods[b].size)
					regs[d], mods[d] = regs[a].Union(regs[b]), u
				case op == 10:
					log = append(log, fmt.Sprintf("r%d=r%d.intersect(r%d)", d, a, b))
					u := &setModel{m: map[uint64]bool{}, size: min(mods[a].size, mods[b].size)}
					for i := range mods[b].m {
						if mods[a].m[i] {
							u.m[i] = true
						}
					}
					regs[d], mods[d] = regs[a].Intersect(regs[b]), u
				default:
					log = append(log, fmt.Sprintf("r%d=new", a))
					size := []int{0, 1, 64, 65, r.IntN(limit)}[r.IntN(5)]
					regs[a], mods[a] = bitset.NewBitset(size), &setModel{m: map[uint64]bool{}, size: size}
				}
				c.Obs("operations", 1)
				for i := range regs {
					if limit > 1000 && i != a && i != d && s != steps-1 {
						continue
					}
					if diff := setDiffers(regs[i], mods[i], r); diff != "" {
						c.Fail("bitset-model", append([]string{}, log...), "after %s: r%d: %s", log[len(log)-1], i, diff)
						return
					}
				}
			}
		})
		key := fmt.Sprint(log)
		c.Eval(key)
		if k < 2 {
			c.Sample("sequence", key[:min(len(key), 400)])
		}
	})
	Par(8, c.N(701, 5001), func(size int) {
		r := c.Rng("size", size)
		kase := fmt.Sprintf("size %d", size)
		c.Guard("bitset-panic", kase, func() {
			m := &setModel{m: map[uint64]bool{}, size: size}
			chk := func(what string, b *bitset.Bitset) {
				if diff := setDiffers(b, m, r); diff != "" {
					c.Fail("bitset-model", kase, "size %d, %s: %s", size, what, diff)
				}
			}
			b := bitset.NewBitset(size)
			chk("new", b)
			full := bitset.NewBitset(size)
			full.Fill()
			for i := 0; i < size; i++ {
				m.m[uint64(i)] = true
			}
			chk("filled", full)
			for i := 0; i < size; i++ {
				if b.Full() {
					c.Fail("bitset-model", kase, "size %d is full with only %d members", size, i)
				}
				b.Set(uint64(i))
			}
			chk("set one by one", b)
			for _, hole := range []int{0, 1, 62, 63, 64, 65, 127, 128, size - 2, size - 1, r.IntN(size + 1)} {
				if hole < 0 || hole >= size {
					continue
				}
				h := full.Copy()
				h.Unset(uint64(hole))
				h.Unset(uint64(hole)) // again: no effect
				delete(m.m, uint64(hole))
				chk(fmt.Sprintf("all but %d", hole), h)
				m.m[uint64(hole)] = true
				h.Fill()
				chk("filled again", h)
			}
			chk("the source of copies", full)
		})
		c.Eval(kase)
	})
}

func refSerialize(m *setModel) []byte {
	b := make([]byte, 8+(m.size+63)/64*8)
	binary.BigEndian.PutUint64(b, uint64(m.size))
	for x := range m.m {
		off := 8 + x/64*8
		binary.BigEndian.PutUint64(b[off:], binary.BigEndian.Uint64(b[off:])|1<<(x%64))
	}
	return b
}

// consistentBitset checks a bitset that came out of arbitrary bytes.
func consistentBitset(b *bitset.Bitset, in []byte) string {
	size := b.Size()
	if size < 0 || size > len(in)*8 {
		return fmt.Sprintf("size %d from %d bytes", size, len(in))
	}
	count := 0
	for i := 0; i < size+200; i++ {
		if b.Get(uint64(i)) {
			if i >= size {
				return fmt.Sprintf("member %d of a set of size %d", i, size)
			}
			count++
		}
	}
	if b.Count() != count || count > size {
		return fmt.Sprintf("count %d, size %d, but %d members", b.Count(), size, count)
	}
	if b.Full() != (count == size) {
		return fmt.Sprintf("full is %v with %d of %d", b.Full(), count, size)
	}
	if out := b.Serialize(); !bytes.Equal(out, in) {
		return "it serializes to other bytes: " + firstDiff(out, in)
	}
	if size <= 65536 {
		b.Ranges()
		b.UnfilledRanges()
		b.UnfilledItems(10)
		b.Overlap([]uint16{0, 65535})
	}
	if u := b.Union(b); u.Count() != count || u.Size() != size {
		return "union with itself differs"
	}
	if u := b.Intersect(b); u.Count() != count || u.Size() != size {
		return "intersection with itself differs"
	}
	cp := b.Copy()
	cp.Fill()
	if !cp.Full() || cp.Count() != size {
		return "a filled copy is not full"
	}
	b.Print()
	b.Set(uint64(size) + 100)
	if !b.Get(uint64(size)+100) || b.Size() != size+101 || b.Count() != count+1 {
		return "growing it does not work"
	}
	return ""
}

func c13(c *Ctx) {
	c.Rule(`round trips of bitsets of every size 0..1500 and large ones, with empty, full, single, random contents built in
		different ways; for many serializations every truncation, extensions, every bit flip, wrong sizes; random bytes.
		An accepted byte string must re-serialize to itself. Distinct by bytes fed to the decoder.`)
	feed := func(in []byte, valid *setModel, r *rand.Rand) {
		kase := clip(in, 200)
		orig := bytes.Clone(in)
		c.Guard("deserialize-panic", kase, func() {
			b, err := bitset.Deserialize(in)
			if !bytes.Equal(in, orig) {
				c.Fail("deserialize-modifies", kase, "the input was modified")
			}
			switch {
			case err == nil && b == nil:
				c.Fail("deserialize-neither", kase, "neither a bitset nor an error")
			case valid != nil && err != nil:
				c.Fail("deserialize-rejects", kase, "a valid serialization is refused: %v", err)
			case valid != nil:
				if diff := setDiffers(b, valid, r); diff != "" {
					c.Fail("roundtrip", kase, "restored wrongly: %s", diff)
				}
				if diff := consistentBitset(b, in); diff != "" {
					c.Fail("roundtrip", kase, "restored wrongly: %s", diff)
				}
				c.Obs("restored", 1)
			case err == nil:
				c.Obs("accepted other strings", 1)
				if diff := consistentBitset(b, in); diff != "" {
					c.Fail("damaged", kase, "a damaged serialization is accepted: %s", diff)
				}
			default:
				c.Obs("refused", 1)
			}
		})
		c.Eval(string(in[:min(len(in), 120)]) + fmt.Sprint(len(in)))
	}
	build := func(r *rand.Rand, size, mode int) (*bitset.Bitset, *setModel) {
		m := &setModel{m: map[uint64]bool{}, size: size}
		b := bitset.NewBitset(size)
		if r.IntN(3) == 0 && size > 0 { // grown instead of made at that size
			b = bitset.NewBitset(r.IntN(size))
			b.Set(uint64(size - 1))
			b.Unset(uint64(size - 1))
		}
		switch mode {
		case 1:
			b.Fill()
			for i := 0; i < size; i++ {
				m.m[uint64(i)] = true
			}
		case 2, 3:
			for i := 0; i < size; i++ {
				if r.IntN(2) == 0 || i == size-1 && mode == 3 {
					b.Set(uint64(i))
					m.m[uint64(i)] = true
				}
			}
		case 4:
			if size > 0 {
				i := uint64(r.IntN(size))
				b.Set(i)
				m.m[i] = true
			}
		}
		if r.IntN(4) == 0 {
			b = b.Copy()
		}
		if r.IntN(4) == 0 {
			b = b.Union(bitset.NewBitset(r.IntN(size + 1)))
		}
		return b, m
	}
	ser := func(b *bitset.Bitset, m *setModel) (out []byte) {
		c.Guard("serialize-panic", m.size, func() {
			out = b.Serialize()
			again := b.Serialize()
			if !bytes.Equal(out, again) {
				c.Fail("roundtrip", m.size, "serializing twice gives different bytes")
			}
		})
		return out
	}
	sizes := c.N(1501, 6001)
	Par(8, sizes, func(size int) {
		r := c.Rng("sizes", size)
		for mode := 0; mode < 5; mode++ {
			b, m := build(r, size, mode)
			out := ser(b, m)
			feed(bytes.Clone(out), m, r)
			if size%100 == 99 {
				c.Sample("serialization", clip(out, 40))
			}
			// independent of the source afterwards
			c.Guard("deserialize-panic", size, func() {
				d, err := bitset.Deserialize(out)
				if err == nil {
					d.Set(uint64(size) + 3)
					d.Unset(0)
					if diff := setDiffers(b, m, r); diff != "" {
						c.Fail("roundtrip", size, "changing a restored bitset changes the source: %s", diff)
					}
				}
			})
		}
	})
	for i, size := range []int{65535, 65536, 65537, 100000, 1 << 20} {
		r := c.Rng("large", i)
		for mode := 0; mode < 5; mode++ {
			b, m := build(r, size, mode)
			feed(ser(b, m), m, r)
		}
	}
	Par(8, c.N(16, 100), func(k int) { // large and damaged
		r := c.Rng("large damage", k)
		size := []int{65535, 65473, 65536, 65537, 4095, 8190, 32767, 2000 + r.IntN(140000)}[k%8]
		b, m := build(r, size, r.IntN(5))
		v := ser(b, m)
		for i := 0; i < 40; i++ {
			w := bytes.Clone(v)
			bit := len(v)*8 - 1 - r.IntN(64)
			if i%4 == 0 {
				bit = r.IntN(len(v) * 8)
			}
			w[bit/8] ^= 1 << (bit % 8)
			feed(w, nil, r)
		}
		for _, n := range []int{1, 7, 8, 9, 16, 200} {
			feed(v[:len(v)-n:len(v)-n], nil, r)
			feed(append(bytes.Clone(v), make([]byte, n)...), nil, r)
		}
	})
	// damage
	Par(8, c.N(160, 2000), func(k int) {
		r := c.Rng("damage", k)
		size := []int{0, 1, 63, 64, 65, 127, 128, 129, r.IntN(300), r.IntN(300)}[k%10]
		b, m := build(r, size, r.IntN(5))
		v := ser(b, m)
		for n := 0; n < len(v); n++ {
			feed(v[:n:n], nil, r)
		}
		for _, n := range []int{1, 4, 7, 8, 9, 16, 64} {
			feed(append(bytes.Clone(v), make([]byte, n)...), nil, r)
			feed(append(bytes.Clone(v), bytes.Repeat([]byte{255}, n)...), nil, r)
		}
		for bit := 0; bit < len(v)*8; bit++ {
			w := bytes.Clone(v)
			w[bit/8] ^= 1 << (bit % 8)
			feed(w, nil, r)
		}
		for _, s := range []uint64{0, 1, 63, 64, 65, uint64(size) + 1, uint64(size) - 1, uint64(size) + 64, 1 << 32, 1 << 62, 1 << 63, 1<<63 - 1, 1<<64 - 1, 1<<64 - 63, 1<<64 - 64} {
			w := bytes.Clone(v)
			if len(w) >= 8 {
				binary.BigEndian.PutUint64(w, s)
				feed(w, nil, r)
			}
		}
		for i := 0; i < 60; i++ {
			w := make([]byte, r.IntN(64))
			for j := range w {
				w[j] = byte(r.Uint32())
			}
			if len(w) >= 8 && r.IntN(2) == 0 {
				binary.BigEndian.PutUint64(w, uint64(r.IntN(520)))
			}
			feed(w, nil, r)
		}
	})
	feed(nil, nil, c.Rng("nil", 0))
}

func c14(c *Ctx) {
	c.Rule(`every bitset of size 0..11 (exhaustively), and random ones up to and including index 65535 with runs, gaps and word
		boundaries; for each: filled and unfilled ranges, first-n queries for many n, overlaps with random, reversed,
		overlapping, full-width and odd range lists, all compared with brute force. Distinct by set and query.`)
	one := func(b *bitset.Bitset, in []bool, r *rand.Rand, name string) {
		size := len(in)
		c.Guard("ranges-panic", name, func() {
			// expected maximal runs
			var filled, empty [][2]int
			for i := 0; i < size; {
				j := i
				for j < size && in[j] == in[i] {
					j++
				}
				if in[i] {
					filled = append(filled, [2]int{i, j - 1})
				} else {
					empty = append(empty, [2]int{i, j - 1})
				}
				i = j
			}
			var got [][2]int
			rs := b.Ranges()
			for i := 0; i+1 < len(rs); i += 2 {
				got = append(got, [2]int{int(rs[i]), int(rs[i+1])})
			}
			if len(rs)%2 != 0 || fmt.Sprint(got) != fmt.Sprint(filled) {
				c.Fail("filled-ranges", name, "size %d: filled ranges are %v, want %v", size, trunc(rs), trunc(filled))
			}
			var un [][2]int
			for _, x := range b.UnfilledRanges() {
				un = append(un, [2]int{int(x.Start), int(x.End)})
			}
			if fmt.Sprint(un) != fmt.Sprint(empty) {
				c.Fail("unfilled-ranges", name, "size %d: unfilled ranges are %v, want %v", size, trunc(un), trunc(empty))
			}
			c.Obs("ranges compared", len(filled)+len(empty))
			var missing []uint16
			for i, x := range in {
				if !x {
					missing = append(missing, uint16(i))
				}
			}
			for _, n := range []int{0, 1, 2, 3, len(missing) - 1, len(missing), len(missing) + 1, size, 70000, r.IntN(size + 2)} {
				if n < 0 {
					continue
				}
				want := missing[:min(n, len(missing))]
				if items := b.UnfilledItems(n); fmt.Sprint(items) != fmt.Sprint(want) && !(len(items) == 0 && len(want) == 0) {
					c.Fail("unfilled-items", name, "size %d: first %d unfilled are %v, want %v", size, n, trunc(items), trunc(want))
				}
				c.Obs("first-n queries", 1)
			}
			// overlaps
			point := func() uint16 {
				switch r.IntN(5) {
				case 0:
					return uint16(min(65535, max(0, size-3+r.IntN(6))))
				case 1:
					if len(filled) > 0 {
						x := filled[r.IntN(len(filled))]
						return uint16(min(65535, max(0, x[r.IntN(2)]-1+r.IntN(3))))
					}
				case 2:
					return []uint16{0, 63, 64, 65535, 65534}[r.IntN(5)]
				}
				return uint16(r.IntN(min(size+10, 65536)))
			}
			lists := [][]uint16{{}, {0, 65535}, {0, 0}, {65535, 65535}, {uint16(min(size, 65535)), 65535}, {5}}
			if size > 0 {
				lists = append(lists, []uint16{0, uint16(size - 1)})
			}
			for k := 0; k < 6; k++ {
				var l []uint16
				for i := 0; i < 1+r.IntN(6); i++ {
					a, z := point(), point()
					if a > z && r.IntN(6) > 0 {
						a, z = z, a
					}
					l = append(l, a, z)
				}
				if k%2 == 0 { // sorted and disjoint, as the protocol has it
					pts := map[uint16]bool{}
					for _, x := range l {
						pts[x] = true
					}
					l = l[:0]
					for x := range pts {
						l = append(l, x)
					}
					sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
				}
				lists = append(lists, l)
			}
			for _, l := range lists {
				want := map[int]bool{}
				for i := 0; i+1 < len(l); i += 2 {
					for x := int(l[i]); x <= int(l[i+1]) && x < size; x++ {
						if in[x] {
							want[x] = true
						}
					}
				}
				src := append([]uint16{}, l...)
				o := b.Overlap(l)
				have := map[int]bool{}
				bad := len(o)%2 != 0
				for i := 0; i+1 < len(o); i += 2 {
					bad = bad || o[i] > o[i+1]
					for x := int(o[i]); x <= int(o[i+1]); x++ {
						have[x] = true
					}
				}
				if len(have) != len(want) {
					bad = true
				}
				for x := range want {
					bad = bad || !have[x]
				}
				if bad {
					c.Fail("overlap", name, "size %d: overlap with %v is %v, which has %d members instead of %d", size, trunc(l), trunc(o), len(have), len(want))
				}
				if fmt.Sprint(src) != fmt.Sprint(l) {
					c.Fail("overlap", name, "the requested ranges were modified")
				}
				c.Obs("overlap queries", 1)
			}
		})
		c.Eval(name)
	}
	top := c.N(11, 16)
	for size := 0; size <= top; size++ {
		Par(8, 1<<size, func(v int) {
			in := make([]bool, size)
			b := bitset.NewBitset(size)
			for i := range in {
				if v>>i&1 == 1 {
					in[i] = true
					b.Set(uint64(i))
				}
			}
			one(b, in, c.Rng("small", size<<16|v), fmt.Sprintf("size %d pattern %b", size, v))
		})
	}
	Par(8, c.N(700, 12000), func(k int) {
		r := c.Rng("large", k)
		size := []int{60 + r.IntN(10), 120 + r.IntN(20), r.IntN(600), r.IntN(3000), 65530 + r.IntN(7), 65536, 65535, r.IntN(65537)}[min(k%40, 7)]
		in := make([]bool, size)
		b := bitset.NewBitset(size)
		p := []int{1, 2, 8, 60, 900}[r.IntN(5)]
		on := r.IntN(2) == 0
		for i := range in {
			if r.IntN(p) == 0 {
				on = !on
			}
			in[i] = on
		}
		if size > 0 && r.IntN(2) == 0 {
			in[size-1] = r.IntN(2) == 0
			in[0] = r.IntN(2) == 0
		}
		if r.IntN(10) == 0 {
			for i := range in {
				in[i] = true
			}
		}
		for i, x := range in {
			if x {
				b.Set(uint64(i))
			}
		}
		name := fmt.Sprintf("random %d size %d", k, size)
		if k < 2 {
			c.Sample("set", fmt.Sprintf("%s: runs of about %d, filled ranges %v", name, p, trunc(b.Ranges())))
		}
		one(b, in, r, name)
	})
}

func trunc(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
