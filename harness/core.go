package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// clientPkg marks stack frames of the code under test.
const clientPkg = "github.com/flu-network/client"

// Violation is one observed breach of a property, with what is needed to understand and repeat it.
type Violation struct {
	Sig    string `json:"sig"`  // stable name of the kind of breach, matched against known findings
	What   string `json:"what"` // what was observed and what was expected
	Case   any    `json:"case,omitempty"`
	Detail string `json:"detail,omitempty"`
}

// Result is what a worker hands to its parent.
type Result struct {
	Done         bool             `json:"done"`
	Violations   []Violation      `json:"violations"`
	NViolations  int64            `json:"n_violations"`
	Inconclusive string           `json:"inconclusive,omitempty"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int              `json:"distinct"`
	Rule         string           `json:"rule"`
	Samples      []any            `json:"samples"`
	Observed     map[string]int64 `json:"observed"`
	Assumptions  []string         `json:"assumptions"`
	Exhaustive   bool             `json:"exhaustive,omitempty"`
}

// Ctx collects what one run of one check observes. All methods may be called concurrently.
type Ctx struct {
	ID      string
	Quick   bool
	Seed    uint64
	Scratch string // directory owned by this run
	Bin     string // directory holding the built binaries

	mu         sync.Mutex
	res        Result
	distinct   map[uint64]struct{}
	sampleKeys map[string]int
	beat       atomic.Int64
	dirSeq     atomic.Int64
	crumbs     *os.File
}

func newCtx(id string, quick bool, seed uint64, scratch, bin string) *Ctx {
	c := &Ctx{ID: id, Quick: quick, Seed: seed, Scratch: scratch, Bin: bin}
	c.distinct = map[uint64]struct{}{}
	c.sampleKeys = map[string]int{}
	c.res.Observed = map[string]int64{}
	c.beat.Store(time.Now().UnixNano())
	c.crumbs, _ = os.OpenFile(filepath.Join(scratch, "crumbs"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	return c
}

// N picks a workload size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Quick {
		return quick
	}
	return thorough
}

// Rng returns the random source of the i-th case of a stream. It depends on nothing but the seed,
// the property, the stream's name and i.
func (c *Ctx) Rng(stream string, i int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(c.ID + "/" + stream))
	return rand.New(rand.NewPCG(c.Seed, h.Sum64()+uint64(i)*0x9E3779B97F4A7C15))
}

func (c *Ctx) Rule(s string)   { c.res.Rule = strings.Join(strings.Fields(s), " ") }
func (c *Ctx) Assume(s string) { c.res.Assumptions = append(c.res.Assumptions, s) }

// Beat tells the watchdog that the run makes progress.
func (c *Ctx) Beat() { c.beat.Store(time.Now().UnixNano()) }

// Eval counts one evaluated case. Cases with a non-empty key are non-trivial; they count as distinct
// by that key.
func (c *Ctx) Eval(key string) {
	c.Beat()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
}

// Obs counts something that the monitors saw.
func (c *Ctx) Obs(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Observed[name] += int64(n)
}

// ObsMax records a maximum.
func (c *Ctx) ObsMax(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if int64(n) > c.res.Observed[name] {
		c.res.Observed[name] = int64(n)
	}
}

// Sample keeps the first few cases of each kind for the evidence.
func (c *Ctx) Sample(kind string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleKeys[kind] >= 2 || len(c.res.Samples) >= 24 {
		return
	}
	c.sampleKeys[kind]++
	c.res.Samples = append(c.res.Samples, map[string]any{"kind": kind, "case": v})
}

// Fail records a violation.
func (c *Ctx) Fail(sig string, kase any, format string, args ...any) {
	c.fail(Violation{Sig: sig, What: fmt.Sprintf(format, args...), Case: kase})
}

func (c *Ctx) fail(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.NViolations++
	n := 0
	for _, x := range c.res.Violations {
		if x.Sig == v.Sig {
			n++
		}
	}
	if n < 3 && len(c.res.Violations) < 30 {
		c.res.Violations = append(c.res.Violations, v)
		fmt.Fprintf(os.Stderr, "violation %s: %s\n", v.Sig, v.What)
	}
}

// Failed reports how many violations there are so far. Long runs stop early when there are many.
func (c *Ctx) Failed() int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.NViolations
}

func (c *Ctx) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Inconclusive = fmt.Sprintf(format, args...)
}

// Crumb notes what is about to run, for the case that it kills the process.
func (c *Ctx) Crumb(format string, args ...any) {
	c.Beat()
	fmt.Fprintf(c.crumbs, format+"\n", args...)
}

// Dir creates a fresh directory in the scratch space.
func (c *Ctx) Dir(prefix string) string {
	d := filepath.Join(c.Scratch, fmt.Sprintf("%s%d", prefix, c.dirSeq.Add(1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// rm deletes a directory of the scratch space.
func (c *Ctx) rm(dir string) {
	if !strings.HasPrefix(dir, c.Scratch+"/") {
		panic("refusing to delete " + dir)
	}
	os.RemoveAll(dir)
}

// Guard runs f and turns a panic of the code under test into a violation. A panic of the harness
// itself is passed on.
func (c *Ctx) Guard(sig string, kase any, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if !clientFrames(stack) {
				panic(r)
			}
			c.fail(Violation{Sig: sig, What: fmt.Sprintf("panic: %v", r), Case: kase, Detail: stack})
			ok = false
		}
	}()
	f()
	return true
}

// clientFrames reports whether a stack of a panicking goroutine has the code under test above the
// harness: the panic came out of it.
func clientFrames(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, line := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(line, clientPkg) {
			return true
		}
		if strings.HasPrefix(line, "main.") {
			return false
		}
	}
	return false
}

// Par runs f(0..n-1) on w goroutines.
func Par(w, n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w && k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Await runs f, which calls the code under test. If it does not return in a very generous time, that
// is a violation: nothing here takes more than a few seconds.
const hangTimeout = 75 * time.Second

func (c *Ctx) Await(sig string, kase any, f func()) bool {
	done := make(chan bool, 1)
	name := make(chan string, 1)
	go func() {
		buf := make([]byte, 64)
		buf = buf[:runtime.Stack(buf, false)]
		name <- string(buf[:bytes.IndexByte(buf, '[')]) // "goroutine 17 "
		done <- c.Guard(sig+"-panic", kase, f)
	}()
	self := <-name
	for waited := time.Duration(0); ; waited += time.Second {
		select {
		case ok := <-done:
			return ok
		case <-time.After(time.Second):
			c.Beat()
			if waited > hangTimeout {
				for _, g := range strings.Split(allStacks(), "\n\n") {
					if strings.HasPrefix(g, self) && strings.Contains(g, clientPkg) {
						c.fail(Violation{Sig: sig + "-hang", What: "did not return within " + hangTimeout.String(),
							Case: kase, Detail: g + "\n\n" + clientStacks()})
						return false
					}
				}
				c.Inconclusive("the harness itself did not return\n%s", allStacks())
				return false
			}
		}
	}
}

// WaitFor polls until cond holds. It returns false after the limit.
func (c *Ctx) WaitFor(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limit)
	for wait := time.Millisecond; ; wait = min(wait*3/2, 100*time.Millisecond) {
		c.Beat()
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(wait)
	}
}

// allStacks returns the stacks of all goroutines.
func allStacks() string {
	for size := 1 << 20; ; size *= 2 {
		buf := make([]byte, size)
		n := runtime.Stack(buf, true)
		if n < size || size > 1<<27 {
			return string(buf[:n])
		}
	}
}

// clientGoroutines returns the stacks of goroutines that have frames of the code under test.
func clientGoroutines() []string {
	var result []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, clientPkg) {
			result = append(result, g)
		}
	}
	return result
}

func clientStacks() string {
	gs := clientGoroutines()
	if len(gs) > 12 {
		gs = gs[:12]
	}
	return strings.Join(gs, "\n\n")
}

// afterViolation is how long a run goes on once it has found something.
const afterViolation = 100 * time.Second

// watchdog ends a run that makes no progress at all, or has found what it looks for, or eats up the
// memory that the machine needs.
func (c *Ctx) watchdog(limit time.Duration) {
	var found time.Time
	for n := 0; ; n++ {
		time.Sleep(200 * time.Millisecond)
		if who, mb := memoryHog(n%5 == 0); who != "" {
			c.fail(Violation{Sig: "memory", What: fmt.Sprintf("%s uses %d MB of memory", who, mb), Case: string(tail(filepath.Join(c.Scratch, "crumbs"), 4096)), Detail: clientStacks()})
			c.finish()
			os.Exit(0)
		}
		if c.Failed() > 0 && found.IsZero() {
			found = time.Now()
		}
		if c.Quick && !found.IsZero() && time.Since(found) > afterViolation {
			c.finish()
			os.Exit(0)
		}
		if time.Since(time.Unix(0, c.beat.Load())) < limit {
			continue
		}
		if s := clientStacks(); s != "" {
			c.fail(Violation{Sig: "hang", What: "a call made no progress for " + limit.String(), Detail: s})
		} else {
			c.Inconclusive("the harness made no progress for %v\n%s", limit, allStacks())
		}
		c.finish()
		os.Exit(0)
	}
}

// The checks themselves use less than a third of this.
const mostMemory = 12000 // MB

// memoryHog looks for processes of this run that use far more memory than they have reason to.
func memoryHog(daemons bool) (string, int) {
	if mb := residentMB("self"); mb > mostMemory {
		return "the process running the client's code", mb
	}
	if daemons {
		procs, _ := filepath.Glob("/proc/[0-9]*/comm")
		for _, p := range procs {
			if comm, err := os.ReadFile(p); err != nil || string(comm) != "client\n" {
				continue
			}
			pid := filepath.Base(filepath.Dir(p))
			n, err := strconv.Atoi(pid)
			if err != nil {
				continue
			}
			if g, err := syscall.Getpgid(n); err != nil || g != syscall.Getpgrp() {
				continue
			}
			if mb := residentMB(pid); mb > mostMemory/2 {
				return "a daemon", mb
			}
		}
	}
	return "", 0
}

func residentMB(pid string) int {
	b, err := os.ReadFile("/proc/" + pid + "/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 3 {
		return 0
	}
	pages, _ := strconv.Atoi(f[1])
	return pages * os.Getpagesize() >> 20
}

// finish writes the result where the parent finds it.
func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = true
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		if i := bytes.Index(b, []byte("VmHWM:")); i >= 0 {
			if f := strings.Fields(string(b[i+6:])); len(f) > 0 {
				kb, _ := strconv.Atoi(f[0])
				c.res.Observed["MB of memory used at most"] = int64(kb >> 10)
			}
		}
	}
	c.res.Distinct = len(c.distinct)
	data, err := json.MarshalIndent(c.res, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := filepath.Join(c.Scratch, "result.tmp")
	if err := os.WriteFile(tmp, data, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, filepath.Join(c.Scratch, "result.json")); err != nil {
		panic(err)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// clip shortens a byte string for a report.
func clip(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%x... (%d bytes)", b[:n], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// firstDiff describes where two byte strings differ.
func firstDiff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return "equal"
	}
	n := min(len(got), len(want))
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("first difference at byte %d: got %02x, want %02x (lengths %d and %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	return fmt.Sprintf("lengths differ: got %d, want %d", len(got), len(want))
}
