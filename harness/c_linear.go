package main

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/flu-network/client/catalogue"
)

func init() { register("C17", "exploration", c17) }

const linFiles = 2   // contents
const linSize = 300  // bytes of each
const linChunk = 100 // chunk size of downloads: 3 chunks. A shared file is one chunk

type linEntry struct {
	Present bool
	Path    string
	Chunk   int
	N       int
	Mask    uint8
}

func (e linEntry) String() string {
	if !e.Present {
		return "-"
	}
	return fmt.Sprintf("{%s chunk %d %d chunks mask %b}", e.Path, e.Chunk, e.N, e.Mask)
}

type linState [linFiles]linEntry

type linOp struct {
	Kind string
	File int
	Path string // for share: the path; for register: the path it must get
	Idx  int
	Len  int
}

type linRes struct {
	OK    bool
	Err   string
	List  linState // of list; of contains only the entry concerned
	Bad   string   // something that is wrong in every state
	Flag  bool
	Holes uint8
}

func (o linOp) String() string {
	switch o.Kind {
	case "share", "register":
		return fmt.Sprintf("%s(%d, %s)", o.Kind, o.File, filepath.Base(o.Path))
	case "save", "read":
		return fmt.Sprintf("%s(%d, chunk %d, %d bytes)", o.Kind, o.File, o.Idx, o.Len)
	}
	return fmt.Sprintf("%s(%d)", o.Kind, o.File)
}

// linStep is the sequential specification.
func linStep(state, input, output any) (bool, any) {
	s, o, r := state.(linState), input.(linOp), output.(linRes)
	e := s[o.File]
	if r.Bad != "" {
		return false, s
	}
	full := uint8(1<<e.N - 1)
	switch o.Kind {
	case "share":
		if e.Present {
			return !r.OK && strings.Contains(r.Err, e.Path), s
		}
		s[o.File] = linEntry{true, o.Path, defaultChunk, 1, 1}
		return r.OK && r.List[o.File] == s[o.File], s
	case "register":
		if e.Present {
			return !r.OK && strings.Contains(r.Err, e.Path), s
		}
		s[o.File] = linEntry{true, o.Path, linChunk, linSize / linChunk, 0}
		return r.OK && r.List[o.File] == s[o.File], s
	case "unshare":
		s[o.File] = linEntry{}
		return r.OK == e.Present, s
	case "save":
		ok := e.Present && o.Idx < e.N && o.Len == min(e.Chunk, linSize)
		if ok {
			s[o.File].Mask |= 1 << o.Idx
		}
		return r.OK == ok, s
	case "list":
		return r.OK && r.List == s, s
	case "contains":
		return r.OK == e.Present && r.List[o.File] == e, s
	case "complete":
		return r.Flag == (e.Present && e.Mask == full), s
	case "missing":
		want := uint8(0)
		if e.Present {
			want = full &^ e.Mask
		}
		return r.Holes == want, s
	case "read":
		ok := e.Present && e.Mask>>o.Idx&1 == 1
		return r.OK == ok && (!ok || o.Len == 0 || r.Holes == uint8(e.N)), s
	}
	return false, s
}

func linExport(r *catalogue.IndexRecordExport) linEntry {
	e := linEntry{true, r.FilePath, r.ChunkSize, r.Progress.Size(), 0}
	for i := 0; i < 8; i++ {
		if r.Progress.Get(uint64(i)) {
			e.Mask |= 1 << i
		}
	}
	return e
}

func c17(c *Ctx) {
	c.Rule(`many short histories: 3 to 6 goroutines perform 4 to 7 operations each on one catalogue and two contents (shared from two
		paths, or downloaded in 3 chunks); porcupine searches for a sequential order that explains all results. After
		each history the catalogue is re-opened and compared with memory. Non-trivial: at least two operations overlapped in
		time. Distinct by the order of calls, returns and results.`)
	model := porcupine.Model{
		Init: func() any { return linState{} },
		Step: linStep,
		DescribeOperation: func(in, out any) string {
			return fmt.Sprintf("%v -> %+v", in, out)
		},
	}
	overlaps, unknown := 0, 0
	var mu sync.Mutex
	Par(4, c.N(1600, 40000), func(k int) {
		if c.Failed() > 5 {
			return
		}
		r := c.Rng("hist", k)
		st := newStore(c)
		base := filepath.Dir(st.Dir)
		defer c.rm(base)
		var content [linFiles][]byte
		var hashes [linFiles]Hash
		for i := range content {
			content[i] = randBytes(r, linSize)
			hashes[i] = sum(content[i])
			for j := 0; j < 2; j++ {
				write(filepath.Join(base, fmt.Sprintf("u%d%c", i, 'a'+j)), content[i])
			}
		}
		procs := 3 + r.IntN(4)
		ops := make([][]linOp, procs)
		kinds := strings.Fields("share share register register register unshare unshare save save save save list contains complete missing read read")
		switch r.IntN(4) {
		case 0: // few kinds, much contention
			r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
			kinds = append(kinds[:4], "register", "list")
		case 1:
			kinds = strings.Fields("register save save save unshare list contains missing")
		}
		for p := range ops {
			for i := 0; i < 4+r.IntN(4); i++ {
				o := linOp{Kind: kinds[r.IntN(len(kinds))], File: r.IntN(linFiles)}
				if r.IntN(3) == 0 {
					o.File = 0
				}
				switch o.Kind {
				case "share":
					o.Path = filepath.Join(base, fmt.Sprintf("u%d%c", o.File, 'a'+r.IntN(2)))
				case "register":
					o.Path = filepath.Join(st.Down, fmt.Sprintf("d%d-%d", p, i))
				case "save":
					o.Idx, o.Len = r.IntN(3), linChunk
					if r.IntN(6) == 0 {
						o.Idx, o.Len = 0, linSize
					}
				case "read":
					o.Idx, o.Len = r.IntN(3), 1
				}
				ops[p] = append(ops[p], o)
			}
		}
		// half of the histories start with a download that is already registered
		var hist []porcupine.Operation
		start := time.Now()
		do := func(o linOp) (res linRes) {
			cat, h := st.Cat, sha(hashes[o.File])
			setErr := func(err error) {
				res.OK = err == nil
				if err != nil {
					res.Err = err.Error()
				}
			}
			switch o.Kind {
			case "share":
				rec, err := cat.ShareFile(o.Path)
				setErr(err)
				if err == nil {
					res.List[o.File] = linEntry{true, rec.FilePath, rec.ChunkSize, 1, 1}
				}
			case "register":
				rec, err := cat.RegisterDownload(linSize, linSize/linChunk, linChunk, h, filepath.Base(o.Path))
				setErr(err)
				if err == nil {
					res.List[o.File] = linExport(rec)
				}
			case "unshare":
				setErr(cat.UnshareFile(h))
			case "save":
				d := content[o.File][o.Idx*linChunk:]
				setErr(cat.SaveChunk(h, uint16(o.Idx), bytes.Clone(d[:o.Len])))
			case "list":
				l, err := cat.ListFiles()
				setErr(err)
				for i := range l {
					known := false
					for f := range hashes {
						if l[i].Sha1Hash.Data == hashes[f] {
							if res.List[f].Present {
								res.Bad = "listed twice"
							}
							res.List[f], known = linExport(&l[i]), true
						}
					}
					if !known {
						res.Bad = "unknown entry"
					}
				}
			case "contains":
				rec, err := cat.Contains(h)
				setErr(err)
				if err == nil {
					res.List[o.File] = linExport(rec)
				}
			case "complete":
				res.Flag = cat.FileComplete(h)
			case "missing":
				for _, x := range cat.MissingChunks(h, 1) {
					for i := int(x.Start); i <= int(x.End) && i < 8; i++ {
						res.Holes |= 1 << i
					}
				}
			case "read":
				rd, err := cat.GetChunkReader(h, int64(o.Idx))
				setErr(err)
				if err == nil {
					got, _ := io.ReadAll(&rd.Reader)
					rd.Close()
					want := chunkOf(content[o.File], linChunk, o.Idx)
					res.Holes = linSize / linChunk
					if len(got) == linSize {
						want, res.Holes = content[o.File], 1
					}
					if !bytes.Equal(got, want) {
						res.Bad = "wrong bytes: " + firstDiff(got, want)
					}
				}
			}
			return res
		}
		record := func(p int, o linOp) {
			t0 := int64(time.Since(start))
			res := do(o)
			t1 := int64(time.Since(start))
			mu.Lock()
			hist = append(hist, porcupine.Operation{ClientId: p, Input: o, Call: t0, Output: res, Return: t1})
			mu.Unlock()
		}
		ok := c.Await("catalogue", fmt.Sprint(ops), func() {
			if r.IntN(2) == 0 {
				record(0, linOp{Kind: "register", File: 0, Path: filepath.Join(st.Down, "first")})
			}
			var wg sync.WaitGroup
			var gate sync.WaitGroup
			gate.Add(1)
			for p := range ops {
				wg.Add(1)
				spin := r.IntN(200)
				go func() {
					defer wg.Done()
					gate.Wait()
					for i := 0; i < spin; i++ {
						runtime.Gosched()
					}
					for _, o := range ops[p] {
						c.Guard("catalogue-panic", o.String(), func() { record(p, o) })
					}
				}()
			}
			gate.Done()
			wg.Wait()
			record(0, linOp{Kind: "list"})
		})
		if !ok {
			return
		}
		sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
		over := 0
		for i := range hist {
			for j := i + 1; j < len(hist) && hist[j].Call < hist[i].Return; j++ {
				over++
			}
		}
		key := ""
		var desc []string
		for _, o := range hist {
			d := fmt.Sprintf("%d: %v -> ok=%v %v%v%v %v", o.ClientId, o.Input, o.Output.(linRes).OK, o.Output.(linRes).Err, o.Output.(linRes).Bad, o.Output.(linRes).Flag, o.Output.(linRes).List)
			desc = append(desc, fmt.Sprintf("[%d..%d] ", o.Call/1000, o.Return/1000)+strings.ReplaceAll(d, base, ""))
		}
		if over > 0 {
			key = fmt.Sprint(k, desc)
		}
		c.Eval(key)
		mu.Lock()
		overlaps += over
		mu.Unlock()
		c.Obs("operations", len(hist))
		c.Obs("overlapping pairs", over)
		if k < 2 {
			c.Sample("history", desc)
		}
		switch res, _ := porcupine.CheckOperationsVerbose(model, hist, 30*time.Second); res {
		case porcupine.Illegal:
			c.Fail("not-linearizable", desc, "no sequential order explains the results of this history of %d operations", len(hist))
		case porcupine.Unknown:
			mu.Lock()
			unknown++
			mu.Unlock()
		}
		mem, err := listing(st.Cat)
		if err != nil {
			c.Fail("memory-state", desc, "after the history: %v", err)
			return
		}
		disk, _, err := reopened(st.Dir, st.Down)
		if err != nil {
			c.Fail("disk-state", desc, "after the history: %v", err)
		} else if d := disk.diff(mem); d != "" {
			c.Fail("disk-state", desc, "on disk after the history: %s", d)
		}
	})
	c.Obs("checker timeouts", unknown)
	if overlaps == 0 {
		c.Inconclusive("no operations overlapped")
	}
}
