package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/flu-network/client/common"
)

func init() {
	register("C16", "fault_enumeration", c16)
	register("C19", "fault_enumeration", c19)
	helpers["fsops"] = helperFsOps
}

// fsOp is one catalogue operation that runs in a process of its own, where it is interfered with.
type fsOp struct {
	Kind  string `json:"kind"` // open share unshare register save list contains reader
	Path  string `json:"path,omitempty"`
	Data  string `json:"data,omitempty"` // file holding the content of a download
	Chunk int    `json:"chunk,omitempty"`
	Name  string `json:"name,omitempty"`
	Index int    `json:"index,omitempty"`
}

type fsSpec struct {
	Dir, Down, Out string
	Ops            []fsOp
}

type fsResult struct {
	Op    int     // -1: the final listing
	Err   string  `json:",omitempty"`
	Final Listing `json:",omitempty"`
}

func (o fsOp) run(st *Store) error {
	content := func() []byte { b, err := os.ReadFile(o.Data); must(err); return b }
	switch o.Kind {
	case "share":
		_, err := st.Cat.ShareFile(o.Path)
		return err
	case "unshare":
		return st.Cat.UnshareFile(sha(sum(content())))
	case "register":
		b := content()
		_, err := st.Cat.RegisterDownload(uint64(len(b)), uint32(chunkCount(int64(len(b)), o.Chunk)), uint32(o.Chunk), sha(sum(b)), o.Name)
		return err
	case "save":
		b := content()
		return st.Cat.SaveChunk(sha(sum(b)), uint16(o.Index), chunkOf(b, o.Chunk, o.Index))
	case "list":
		_, err := st.Cat.ListFiles()
		return err
	case "contains":
		_, err := st.Cat.Contains(sha(sum(content())))
		return err
	case "reader":
		b := content()
		rd, err := st.Cat.GetChunkReader(sha(sum(b)), int64(o.Index))
		if err != nil {
			return err
		}
		defer rd.Close()
		buf := make([]byte, 1024)
		for {
			n, _, err := rd.Read(buf)
			if n == 0 || err != nil {
				return nil // what is read is not the subject here
			}
		}
	}
	panic("no such op " + o.Kind)
}

// helperFsOps runs the operations of a spec between the two marks, and reports the result of each as
// soon as it has returned.
func helperFsOps(args []string) {
	var spec fsSpec
	data, err := os.ReadFile(args[0])
	must(err)
	must(json.Unmarshal(data, &spec))
	out, err := os.OpenFile(spec.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	must(err)
	report := func(r fsResult) {
		b, err := json.Marshal(r)
		must(err)
		_, err = out.Write(append(b, '\n'))
		must(err)
	}
	text := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	var st *Store
	ops := spec.Ops
	if len(ops) == 0 || ops[0].Kind != "open" {
		st, err = openStore(spec.Dir, spec.Down)
		must(err)
	}
	os.Stat("/verif-mark-on")
	for i, o := range ops {
		if o.Kind == "open" {
			st, err = openStore(spec.Dir, spec.Down)
			report(fsResult{Op: i, Err: text(err)})
			if err != nil {
				break
			}
			continue
		}
		report(fsResult{Op: i, Err: text(o.run(st))})
	}
	os.Stat("/verif-mark-off")
	final := fsResult{Op: -1}
	if st != nil {
		l, err := listing(st.Cat)
		final.Final, final.Err = l, text(err)
	}
	report(final)
}

// fsScenario is a prepared catalogue and the operations to interfere with.
type fsScenario struct {
	name  string
	setup []fsOp
	ops   []fsOp
	// what every operation works on afterwards is derived from the state
}

type fsRig struct {
	c        *Ctx
	base     string // PREFIX: catalogue, downloads and user files live below it
	out      string // elsewhere
	template string
	data     map[string][]byte // content by hash
	files    map[string]string // path of content by hash
	sc       fsScenario
	states   map[uint64]Listing // listing after a subset of the operations
	calls    int                // counted calls without interference
}

func (g *fsRig) dir() string  { return filepath.Join(g.base, "cat") }
func (g *fsRig) down() string { return filepath.Join(g.base, "down") }

// content makes a piece of content, and a file outside of PREFIX that holds it.
func (g *fsRig) content(r *rand.Rand, name string, size int) string {
	b := randBytes(r, size)
	p := filepath.Join(g.out, "content-"+name)
	write(p, b)
	h := sum(b).String()
	g.data[h], g.files[h] = b, p
	return p
}

// userFile puts content where the user shares it.
func (g *fsRig) userFile(r *rand.Rand, name string, size int) (path, data string) {
	data = g.content(r, name, size)
	b, _ := os.ReadFile(data)
	path = filepath.Join(g.base, "user", name)
	write(path, b)
	return
}

// fsScenarios builds scenario k (of how many there are) for one rig.
func fsScenarios(g *fsRig, r *rand.Rand, k int) (fsScenario, bool) {
	const cs = 1500
	reg := func(d, name string) fsOp { return fsOp{Kind: "register", Data: d, Chunk: cs, Name: name} }
	save := func(d string, i int) fsOp { return fsOp{Kind: "save", Data: d, Chunk: cs, Index: i} }
	a, aData := g.userFile(r, "a.bin", 5000)
	b, bData := g.userFile(r, "b.bin", 900)
	e, _ := g.userFile(r, "empty", 0)
	d := g.content(r, "d.bin", 7*cs+300)
	d2 := g.content(r, "d2.bin", 3*cs)
	one := g.content(r, "one.bin", 700)
	huge := g.content(r, "huge.bin", 61000)
	share := func(p string) fsOp { return fsOp{Kind: "share", Path: p} }
	half := []fsOp{share(a), reg(d, "d.bin"), save(d, 1), save(d, 4), share(b)}
	list := []fsScenario{
		{"open a fresh catalogue", nil, []fsOp{{Kind: "open"}, share(a)}},
		{"open an existing catalogue", half, []fsOp{{Kind: "open"}, {Kind: "list"}, save(d, 2)}},
		{"open, then ask for one file", half, []fsOp{{Kind: "open"}, {Kind: "contains", Data: d}, {Kind: "reader", Data: d, Index: 4}, save(d, 7)}},
		{"share a new file", half, []fsOp{share(e)}},
		{"first share", nil, []fsOp{share(a), share(b)}},
		{"share known content", half, []fsOp{share(a), share(b)}},
		{"unshare a file", half, []fsOp{{Kind: "unshare", Data: aData}}},
		{"unshare a download", half, []fsOp{{Kind: "unshare", Data: d}, {Kind: "unshare", Data: bData}}},
		{"unshare and share again", half, []fsOp{{Kind: "unshare", Data: aData}, share(a)}},
		{"register a download", half, []fsOp{reg(d2, "d2.bin")}},
		{"register to a taken name", half, []fsOp{reg(d2, "d.bin")}},
		{"register known content", half, []fsOp{reg(d, "other.bin"), reg(d2, "../evil")}},
		{"save a middle chunk", half, []fsOp{save(d, 3)}},
		{"save the last chunk", half, []fsOp{save(d, 7)}},
		{"save chunks again", half, []fsOp{save(d, 1), save(d, 4)}},
		{"save two chunks", half, []fsOp{save(d, 5), save(d, 0)}},
		{"first chunk of a download", []fsOp{reg(d2, "d2.bin")}, []fsOp{save(d2, 2), save(d2, 0)}},
		{"a whole download", []fsOp{share(b)}, []fsOp{reg(one, "one.bin"), save(one, 0), {Kind: "reader", Data: one, Index: 0}}},
		{"complete a download", []fsOp{reg(d2, "d2.bin"), save(d2, 0), save(d2, 1)}, []fsOp{save(d2, 2), {Kind: "unshare", Data: d2}, reg(d2, "d2.bin"), save(d2, 0)}},
		{"many chunks", []fsOp{share(a)}, []fsOp{{Kind: "register", Data: huge, Chunk: 1, Name: "huge"}, {Kind: "save", Data: huge, Chunk: 1, Index: 60999}, {Kind: "save", Data: huge, Chunk: 1, Index: 8}}},
	}
	if k >= len(list) {
		// a random sequence
		r := rand.New(rand.NewPCG(g.c.Seed, uint64(k)))
		pool := []fsOp{share(a), share(b), share(e), reg(d, "d.bin"), reg(d2, "d.bin"), reg(one, "one.bin"), save(d, 0), save(d, 3), save(d, 7), save(d2, 1), save(one, 0),
			{Kind: "unshare", Data: aData}, {Kind: "unshare", Data: bData}, {Kind: "unshare", Data: d}, {Kind: "unshare", Data: d2}, {Kind: "list"}, {Kind: "reader", Data: d, Index: 3}}
		pick := func(n int) (ops []fsOp) {
			for i := 0; i < n; i++ {
				ops = append(ops, pool[r.IntN(len(pool))])
			}
			return
		}
		s := fsScenario{name: fmt.Sprintf("random %d", k), setup: pick(r.IntN(8)), ops: pick(1 + r.IntN(5))}
		if r.IntN(3) == 0 {
			s.ops = append([]fsOp{{Kind: "open"}}, s.ops...)
		}
		return s, true
	}
	return list[k], k < len(list)
}

const fsScenarioCount = 20

func newFsRig(c *Ctx, k int) *fsRig {
	g := &fsRig{c: c, base: c.Dir("fs"), data: map[string][]byte{}, files: map[string]string{}, states: map[uint64]Listing{}}
	g.out = g.base + "-out"
	g.template = g.base + "-template"
	must(os.MkdirAll(g.out, 0755))
	g.sc, _ = fsScenarios(g, c.Rng("scenario", k), k)
	if len(g.sc.setup) > 0 {
		st, err := openStore(g.dir(), g.down())
		must(err)
		for _, o := range g.sc.setup {
			o.run(st)
		}
	}
	must(os.Rename(g.base, g.template))
	return g
}

func (g *fsRig) close() { g.c.rm(g.base); g.c.rm(g.out); g.c.rm(g.template) }

func (g *fsRig) restore() {
	g.c.rm(g.base)
	copyTree(g.template, g.base)
}

// state returns the listing after running a subset of the operations undisturbed, each of which
// must not fail.
func (g *fsRig) state(mask uint64) (Listing, error) {
	if l, ok := g.states[mask]; ok {
		return l, nil
	}
	g.restore()
	st, err := openStore(g.dir(), g.down())
	if err != nil {
		return nil, err
	}
	for i, o := range g.sc.ops {
		if mask>>i&1 == 1 && o.Kind != "open" {
			if err := o.run(st); err != nil {
				return nil, fmt.Errorf("%+v: %v", o, err)
			}
		}
	}
	l, _, err := reopened(g.dir(), g.down())
	if err == nil {
		g.states[mask] = l
	}
	return l, err
}

// undisturbed tells which operations succeed when nothing interferes.
func (g *fsRig) undisturbed() (ok []bool, mask uint64, err error) {
	res, _, err := g.run("count", 0, 0)
	if err != nil {
		return nil, 0, err
	}
	ok = make([]bool, len(g.sc.ops))
	for _, r := range res {
		if r.Op >= 0 && r.Err == "" {
			ok[r.Op] = true
			mask |= 1 << r.Op
		}
	}
	return ok, mask, nil
}

// run restores the catalogue and runs the operations under fscut. It returns the results reported
// before the end, and the counted calls.
func (g *fsRig) run(mode string, n, errno int) ([]fsResult, []string, error) {
	g.restore()
	spec := fsSpec{g.dir(), g.down(), filepath.Join(g.out, "results"), g.sc.ops}
	os.Remove(spec.Out)
	b, _ := json.Marshal(spec)
	specFile := filepath.Join(g.out, "spec")
	write(specFile, b)
	log := filepath.Join(g.out, "log")
	var stderr bytes.Buffer
	cmd := exec.Command(filepath.Join(g.c.Bin, "fscut"), g.base+"/", mode, strconv.Itoa(n), strconv.Itoa(errno), log, filepath.Join(g.c.Bin, "mon"), "fsops", specFile)
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return nil, nil, fmt.Errorf("the operations did not end; %s", clipText(stderr.String(), 2000))
	}
	if code := cmd.ProcessState.ExitCode(); err != nil && code != 128+9 {
		return nil, nil, &fsDied{code, clipText(stderr.String(), 6000)}
	}
	var res []fsResult
	f, _ := os.Open(spec.Out)
	if f != nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<22)
		for sc.Scan() {
			var r fsResult
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				res = append(res, r)
			}
		}
		f.Close()
	}
	l, _ := os.ReadFile(log)
	lines := strings.Split(strings.TrimSpace(string(l)), "\n")
	g.calls = len(lines) - 1
	return res, lines, nil
}

type fsDied struct {
	code   int
	stderr string
}

func (e *fsDied) Error() string { return fmt.Sprintf("exit code %d: %s", e.code, e.stderr) }

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// truthful checks that all available chunks of downloads really are on disk.
func (g *fsRig) truthful(l Listing) error {
	for h, v := range l {
		want, ok := g.data[h]
		if !ok {
			return fmt.Errorf("unknown content %s in the listing", h)
		}
		if v.Size != int64(len(want)) {
			return fmt.Errorf("%s has size %d, want %d", h, v.Size, len(want))
		}
		got, _ := readReg(v.Path)
		for i := range parseMembers(v.Members) {
			if !bytes.Equal(chunkOf(got, v.ChunkSize, i), chunkOf(want, v.ChunkSize, i)) {
				return fmt.Errorf("chunk %d of %s is listed as available, but the file does not hold it", i, v.Path)
			}
		}
	}
	return nil
}

// usable tries every operation on a catalogue.
func (g *fsRig) usable(st *Store) error {
	before, err := listing(st.Cat)
	if err != nil {
		return err
	}
	p := filepath.Join(g.base, "user", "fresh")
	b := []byte("fresh content " + g.base)
	write(p, b)
	if _, err := st.Cat.ShareFile(p); err != nil {
		return fmt.Errorf("share: %v", err)
	}
	data := append([]byte("another content "), b...)
	g.data[sum(data).String()], g.data[sum(b).String()] = data, b
	if _, err := st.seed(data, 10, "fresh-download", []int{1}); err != nil {
		return err
	}
	for h, v := range before {
		if _, err := st.Cat.GetChunkReader(hashOf(h), 0); err == nil && !strings.HasPrefix(v.Members, "0-") {
			return fmt.Errorf("chunk 0 of %s is served, but not available", v.Path)
		}
		content := g.data[h]
		for i := 0; i < v.Count; i++ {
			if v.Count > 100 && i > 3 {
				break
			}
			if strings.HasPrefix(v.Path, g.down()) {
				if err := st.Cat.SaveChunk(hashOf(h), uint16(i), chunkOf(content, v.ChunkSize, i)); err != nil {
					return fmt.Errorf("save: %v", err)
				}
			}
		}
	}
	if err := st.Cat.UnshareFile(sha(sum(b))); err != nil {
		return fmt.Errorf("unshare: %v", err)
	}
	now, err := listing(st.Cat)
	if err != nil {
		return err
	}
	again, _, err := reopened(st.Dir, st.Down)
	if err != nil {
		return err
	}
	if d := again.diff(now); d != "" {
		return fmt.Errorf("opened once more: %s", d)
	}
	if len(now) != len(before)+1 {
		return fmt.Errorf("%d entries after adding one to %d", len(now), len(before))
	}
	return g.truthful(now)
}

func hashOf(s string) *common.Sha1Hash {
	h := &common.Sha1Hash{}
	must(h.FromStringSafe(s))
	return h
}

func c16(c *Ctx) {
	c.Rule(`Each case kills a process that performs catalogue operations at one file-system call (every call on
		the catalogue, the downloads and the user's files in turn, before it and, for writes, halfway through
		it and for others right after it), then opens the directory again. The listing must be the one before
		or after the interrupted operation, with every completed one in effect, every available chunk must be
		on disk, the remaining operations must work and lead to the final state, and so must all others. It
		counts as distinct by scenario, call and kind of kill.`)
	c.Assume("the process is killed, the operating system keeps running: data written before the kill is not lost")
	n := c.N(fsScenarioCount+4, fsScenarioCount+400)
	Par(8, n, func(k int) {
		if c.Failed() > 20 {
			return
		}
		g := newFsRig(c, k)
		defer g.close()
		okOps, _, err := g.undisturbed()
		if err != nil {
			c.Fail("operations-die", g.sc.name, "without interference: %v", err)
			return
		}
		total := g.calls
		c.Obs("file-system calls interrupted", total)
		c.ObsMax("most calls in one scenario", total)
		for n := 1; n <= total; n++ {
			for _, mode := range []string{"kill", "torn"} {
				if c.Failed() > 20 {
					return
				}
				kase := map[string]any{"scenario": g.sc.name, "setup": g.sc.setup, "ops": g.sc.ops, "mode": mode, "call": n}
				res, lines, err := g.run(mode, n, 0)
				if err != nil {
					var died *fsDied
					if errors.As(err, &died) {
						c.Fail("operations-die", kase, "%v", err)
					} else {
						c.Inconclusive("%v", err)
					}
					return
				}
				if g.calls < n {
					c.Obs("runs that ended before the call", 1) // e.g. another order of the index
					continue
				}
				kase["at"] = lines[n-1]
				done := 0 // operations that returned
				var mask uint64
				bad := false
				for _, r := range res {
					if r.Op >= 0 {
						done = r.Op + 1
						if r.Err == "" {
							mask |= 1 << r.Op
						}
						bad = bad || (r.Err == "") != okOps[r.Op]
					}
				}
				if bad {
					c.Fail("operation-differs", kase, "operations before the kill gave other results than without it: %+v", res)
					return
				}
				fsJudgeKill(c, g, kase, done, mask, okOps)
				c.Eval(fmt.Sprintf("%s %d %s", g.sc.name, n, mode))
				c.Obs("kills "+mode, 1)
			}
		}
		c.Sample("scenario", map[string]any{"name": g.sc.name, "ops": len(g.sc.ops), "calls": total})
	})
}

func fsJudgeKill(c *Ctx, g *fsRig, kase map[string]any, done int, mask uint64, okOps []bool) {
	saved := g.base + "-killed"
	c.rm(saved)
	must(os.Rename(g.base, saved)) // computing the expected states needs the place
	before, err := g.state(mask)
	if err != nil {
		c.Fail("reference-run", kase, "%v", err)
		return
	}
	after := before
	if done < len(okOps) && okOps[done] {
		if after, err = g.state(mask | 1<<done); err != nil {
			c.Fail("reference-run", kase, "%v", err)
			return
		}
	}
	c.rm(g.base)
	must(os.Rename(saved, g.base))

	l, st, err := reopened(g.dir(), g.down())
	if err != nil {
		c.Fail("unusable", kase, "after the kill: %v", err)
		return
	}
	isBefore, isAfter := l.diff(before) == "", l.diff(after) == ""
	switch {
	case isBefore && isAfter:
	case isBefore:
		c.Obs("found the state before", 1)
	case isAfter:
		c.Obs("found the state after", 1)
	default:
		c.Fail("third-state", kase, "after the kill the catalogue is neither in the state before (%s) nor after (%s) the interrupted operation", l.diff(before), l.diff(after))
		return
	}
	if err := g.truthful(l); err != nil {
		c.Fail("untruthful", kase, "after the kill: %v", err)
		return
	}
	// the operations that did not happen can be done now
	next := done
	if isAfter && !isBefore {
		next++
		if done < len(okOps) && okOps[done] {
			mask |= 1 << done
		}
	}
	for i := next; i < len(g.sc.ops); i++ {
		if g.sc.ops[i].Kind == "open" {
			continue
		}
		err := g.sc.ops[i].run(st)
		if (err == nil) != okOps[i] {
			c.Fail("resumed-operation", kase, "after the kill, %+v gave %v", g.sc.ops[i], err)
			return
		}
		if err == nil {
			mask |= 1 << i
		}
	}
	now, err := listing(st.Cat)
	if err != nil {
		c.Fail("unusable", kase, "after the kill and the remaining operations: %v", err)
		return
	}
	if err := g.usable(st); err != nil {
		c.Fail("unusable", kase, "after the kill: %v", err)
		return
	}
	c.rm(saved)
	must(os.Rename(g.base, saved))
	want, err := g.state(mask)
	c.rm(g.base)
	must(os.Rename(saved, g.base))
	if err != nil {
		c.Fail("reference-run", kase, "%v", err)
	} else if d := now.diff(want); d != "" {
		c.Fail("resumed-state", kase, "after the kill and the remaining operations: %s", d)
	}
}

func c19(c *Ctx) {
	c.Rule(`Each case is either a run of catalogue operations in which one file-system call (every one in turn), or
		all from one call on, or all that need space from one call on, fail with EIO, ENOSPC or EACCES; or a
		random sequence of operations of which many must fail. After each failed operation the listing must be
		the one before, in memory and after opening the directory again, successful ones must be in effect, and
		a refused duplicate must name the indexed path. A case counts as distinct by scenario, call and fault,
		or by the sequence of operations.`)
	c19Plain(c)
	type fault struct {
		mode  string
		errno syscall.Errno
	}
	faults := []fault{{"fail", syscall.EIO}, {"fail", syscall.ENOSPC}, {"full", syscall.ENOSPC}, {"dead", syscall.EIO}}
	if !c.Quick {
		faults = append(faults, fault{"fail", syscall.EACCES}, fault{"dead", syscall.EROFS}, fault{"fail", syscall.EMFILE})
	}
	n := c.N(fsScenarioCount, fsScenarioCount+400)
	Par(8, n, func(k int) {
		if c.Failed() > 20 {
			return
		}
		g := newFsRig(c, k)
		defer g.close()
		okOps, _, err := g.undisturbed()
		if err != nil {
			c.Fail("operations-die", g.sc.name, "without interference: %v", err)
			return
		}
		total := g.calls
		c.Obs("file-system calls made to fail", total)
		for n := 1; n <= total; n++ {
			for _, f := range faults {
				if c.Failed() > 20 {
					return
				}
				kase := map[string]any{"scenario": g.sc.name, "setup": g.sc.setup, "ops": g.sc.ops, "mode": f.mode, "errno": f.errno.Error(), "call": n}
				res, lines, err := g.run(f.mode, n, int(f.errno))
				if err != nil {
					var died *fsDied
					if errors.As(err, &died) {
						c.Fail("operations-die", kase, "%v", err)
					} else {
						c.Inconclusive("%v", err)
					}
					return
				}
				if g.calls < n {
					c.Obs("runs that ended before the call", 1)
					continue
				}
				kase["at"] = lines[n-1]
				fsJudgeFault(c, g, kase, res, okOps)
				c.Eval(fmt.Sprintf("%s %d %s %d", g.sc.name, n, f.mode, f.errno))
				c.Obs("faults "+f.mode+" "+f.errno.Error(), 1)
			}
		}
		c.Sample("scenario", map[string]any{"name": g.sc.name, "ops": len(g.sc.ops), "calls": total})
	})
}

func fsJudgeFault(c *Ctx, g *fsRig, kase map[string]any, res []fsResult, okOps []bool) {
	var mask uint64
	var final *fsResult
	opened := true
	failed := 0
	for i, r := range res {
		switch {
		case r.Op < 0:
			final = &res[i]
		case r.Err == "":
			mask |= 1 << r.Op
			if !okOps[r.Op] {
				// an operation that must fail, e.g. on a duplicate, may succeed only if the one that
				// would have made it a duplicate failed. The reference run decides.
				c.Obs("operations that succeed because an earlier one failed", 1)
			}
		default:
			failed++
			if g.sc.ops[r.Op].Kind == "open" {
				opened = false
			}
		}
	}
	if final == nil {
		c.Fail("operations-die", kase, "the process ended early: %+v", res)
		return
	}
	c.Obs("operations that failed", failed)
	if failed == 0 {
		c.Obs("faults that no operation reported", 1)
	}
	kase["results"] = res
	saved := g.base + "-faulted"
	c.rm(saved)
	must(os.Rename(g.base, saved))
	want, err := g.state(mask)
	c.rm(g.base)
	must(os.Rename(saved, g.base))
	if err != nil {
		c.Fail("success-reported", kase, "an operation reported success that fails without faults: %v", err)
		return
	}
	if opened {
		if final.Err != "" {
			c.Fail("unusable", kase, "listing after the faults: %s", final.Err)
			return
		}
		if d := final.Final.diff(want); d != "" {
			c.Fail("listing-changed", kase, "after failed operations, in memory: %s", d)
			return
		}
	}
	l, st, err := reopened(g.dir(), g.down())
	if err != nil {
		c.Fail("unusable", kase, "opened again after the faults: %v", err)
		return
	}
	if d := l.diff(want); d != "" {
		c.Fail("listing-changed-on-disk", kase, "after failed operations, opened again: %s", d)
		return
	}
	if err := g.truthful(l); err != nil {
		c.Fail("untruthful", kase, "%v", err)
		return
	}
	if err := g.usable(st); err != nil {
		c.Fail("unusable", kase, "%v", err)
	}
}

// c19Plain runs random sequences of operations, many of which must fail.
func c19Plain(c *Ctx) {
	Par(8, c.N(150, 6000), func(k int) {
		if c.Failed() > 20 {
			return
		}
		r := c.Rng("plain", k)
		base := c.Dir("p")
		defer c.rm(base)
		user := filepath.Join(base, "user")
		dir, down := filepath.Join(base, "cat"), filepath.Join(base, "down")
		st, err := openStore(dir, down)
		if err != nil {
			c.Fail("open-fails", base, "%v", err)
			return
		}
		contents := make([][]byte, 5)
		paths := []string{}
		for i := range contents {
			contents[i] = randBytes(r, []int{0, 1, 17, 3000, 9000}[i])
			for j := 0; j < 2; j++ {
				p := filepath.Join(user, fmt.Sprint(j), oddName(r, i))
				write(p, contents[i])
				paths = append(paths, p)
			}
		}
		odd := []string{filepath.Join(user, "missing"), user, filepath.Join(user, "dangling"), filepath.Join(user, "fifo"),
			filepath.Join(user, "linkdir"), filepath.Join(user, "locked"), "/dev/zero", "/dev/null", "", "\x00", filepath.Join(paths[0], "below"), filepath.Join(user, strings.Repeat("n", 300)), filepath.Join(user, "loop")}
		os.Symlink(filepath.Join(user, "nowhere"), odd[2])
		syscall.Mkfifo(odd[3], 0644)
		os.Symlink(user, odd[4])
		write(odd[5], []byte("locked"+base))
		os.Chmod(odd[5], 0)
		os.Symlink("loop", odd[12])
		lockedReadable := false
		if f, err := os.Open(odd[5]); err == nil {
			f.Close()
			lockedReadable = true // e.g. the superuser of the namespace
		}
		var log []string
		want := Listing{}
		for i := 0; i < 30; i++ {
			var err error
			var what string
			ci := r.IntN(len(contents))
			h := sum(contents[ci])
			indexed, dup := want[h.String()]
			mustFail, mayFail := false, false
			c.Await("operation", log, func() {
				switch r.IntN(10) {
				case 0, 1:
					p := paths[2*ci+r.IntN(2)]
					what = fmt.Sprintf("share %q", p)
					_, err = st.Cat.ShareFile(p)
					mustFail = dup
				case 2, 3:
					p := odd[r.IntN(len(odd))]
					what = fmt.Sprintf("share %q", p)
					mustFail = !(p == odd[5] && lockedReadable)
					mayFail = !mustFail // it may be indexed already
					dup = false
					if p == "" {
						what += " (the working directory)"
					}
					_, err = st.Cat.ShareFile(p)
				case 4:
					what = "register " + h.String()
					_, err = st.Cat.RegisterDownload(uint64(len(contents[ci])), uint32(chunkCount(int64(len(contents[ci])), 100)), 100, sha(h), fmt.Sprintf("down-%d", ci))
					mustFail = dup
				case 5:
					bad := []struct {
						size  uint64
						chunk uint32
						name  string
					}{{10, 0, "x"}, {1 << 63, 1 << 20, "x"}, {1 << 40, 1 << 20, "x"}, {65537, 1, "x"}, {10, 10, ""}, {10, 10, "."}, {10, 10, ".."}, {10, 10, "a/b"}, {10, 10, "/abs"}, {10, 10, "nul\x00"}, {10, 10, strings.Repeat("x", 256)}, {math64, 1 << 31, "x"}}
					b := bad[r.IntN(len(bad))]
					what = fmt.Sprintf("register %d/%d %q", b.size, b.chunk, b.name)
					_, err = st.Cat.RegisterDownload(b.size, uint32(1), b.chunk, sha(sum(randBytes(r, 8))), b.name)
					mustFail, dup = true, false
				case 6:
					what = "unshare " + h.String()
					err = st.Cat.UnshareFile(sha(h))
					mustFail = !dup
					dup = false
				case 7:
					idx := r.IntN(chunkCount(int64(len(contents[ci])), 100) + 3)
					d := chunkOf(contents[ci], 100, idx)
					if r.IntN(3) == 0 {
						d = append([]byte{1}, d...)
					}
					what = fmt.Sprintf("save chunk %d (%d bytes) of %s", idx, len(d), h)
					err = st.Cat.SaveChunk(sha(h), uint16(idx), d)
					ok := dup && strings.HasPrefix(indexed.Path, down) && idx < indexed.Count && len(d) == len(chunkOf(contents[ci], 100, idx))
					if dup && !strings.HasPrefix(indexed.Path, down) {
						// a shared file has one big chunk
						ok = idx == 0 && len(d) == len(contents[ci]) && len(d) > 0
					}
					mustFail = !ok
					dup = false
				case 8:
					x := sum(randBytes(r, 8))
					what = "operations on an unknown file"
					_, e1 := st.Cat.Contains(sha(x))
					_, e2 := st.Cat.Rehash(sha(x))
					_, e3 := st.Cat.GetChunkReader(sha(x), 0)
					e4 := st.Cat.SaveChunk(sha(x), 0, []byte{1})
					e5 := st.Cat.UnshareFile(sha(x))
					if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil {
						c.Fail("no-error", what, "%s: %v, %v, %v, %v, %v", what, e1, e2, e3, e4, e5)
					}
					mustFail, dup, err = true, false, fmt.Errorf("expected")
				case 9:
					what = "open again"
					st2, e := openStore(dir, down)
					if err = e; e == nil {
						st = st2
					}
					dup = false
				}
			})
			log = append(log, fmt.Sprintf("%s: %v", what, err))
			now, lerr := listing(st.Cat)
			if lerr != nil {
				c.Fail("unusable", log, "%v", lerr)
				return
			}
			switch {
			case mayFail:
			case mustFail && err == nil:
				c.Fail("no-error", log, "%s succeeded", what)
				return
			case !mustFail && err != nil:
				c.Fail("spurious-error", log, "%s: %v", what, err)
				return
			}
			if err != nil {
				c.Obs("operations that failed", 1)
				if d := now.diff(want); d != "" {
					c.Fail("listing-changed", log, "after a failed operation: %s", d)
					return
				}
				if dup {
					c.Obs("refused duplicates", 1)
					if !strings.Contains(err.Error(), indexed.Path) {
						c.Fail("error-without-path", log, "the error %q does not name the indexed path %q", err, indexed.Path)
						return
					}
				}
				again, _, rerr := reopened(dir, down)
				if rerr != nil {
					c.Fail("unusable", log, "%v", rerr)
					return
				}
				if d := again.diff(want); d != "" {
					c.Fail("listing-changed-on-disk", log, "after a failed operation, opened again: %s", d)
					return
				}
			}
			want = now
		}
		c.Eval(strings.Join(log, "\n"))
	})
}

const math64 = 1<<63 - 1
