package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/flu-network/client/cli"
)

func init() { register("C31", "exploration", c31) }

// item is one file as the CLI prints it.
type item struct {
	Name, Path                               string
	Size, Chunks, Have, ChunkSize, Integrity int64
	Hash                                     string
}

var itemRE = regexp.MustCompile(`(?s)^(.*?)\n\tPath: (.*?)\n\tSize \(bytes\): (-?\d+)\n\tSha1 Hash: ([0-9a-fA-F]*)\n\tChunk Count: (-?\d+)\n\tChunks Downloaded: (-?\d+)\n\tChunk Size: (-?\d+)\n\tIntegrity: (-?\d+)%\n`)

// parseItems reads what share and list print.
func parseItems(out string) ([]item, error) {
	var l []item
	for out != "" {
		m := itemRE.FindStringSubmatch(out)
		if m == nil {
			return l, fmt.Errorf("cannot make sense of %q", out)
		}
		n := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
		l = append(l, item{Name: m[1], Path: m[2], Size: n(3), Hash: strings.ToLower(m[4]), Chunks: n(5), Have: n(6), ChunkSize: n(7), Integrity: n(8)})
		out = out[len(m[0]):]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Hash < l[j].Hash })
	return l, nil
}

// lanLab is a LAN of real daemons.
type lanLab struct {
	c     *Ctx
	lab   int
	hosts []*Real
	kase  map[string]any
	log   []string
	// what each host should list: hash -> content
	holds   []map[string][]byte
	upgrade bool              // to the current client when a host is started again
	names   map[string]string // hash -> base name at its origin
}

func newLanLab(c *Ctx, lab, n int) *lanLab {
	l := &lanLab{c: c, lab: lab, kase: map[string]any{"lab": lab}, names: map[string]string{}}
	for i := 0; i < n; i++ {
		l.hosts = append(l.hosts, newReal(c, lab, i+2))
		l.holds = append(l.holds, map[string][]byte{})
	}
	return l
}

func (l *lanLab) close() {
	for _, h := range l.hosts {
		h.close()
		l.c.rm(h.dir)
	}
}

func (l *lanLab) step(format string, args ...any) {
	l.log = append(l.log, fmt.Sprintf(format, args...))
	l.c.Beat()
}

func (l *lanLab) fail(sig, format string, args ...any) {
	l.kase["steps"] = append([]string{}, l.log...)
	l.c.Fail(sig, l.kase, format, args...)
}

func (l *lanLab) start(i int) bool {
	if h := l.hosts[i]; l.upgrade && h.runs > 0 && h.bin == oldClient {
		h.bin = "/mnt/bin/client"
		l.step("host %d is upgraded", i)
		l.c.Obs("upgrades", 1)
	}
	if !l.hosts[i].start() {
		l.fail("start", "the daemon does not start: %s", l.hosts[i].crash())
		return false
	}
	return true
}

// share puts a file on a host and shares it through the CLI.
func (l *lanLab) share(i int, name string, data []byte) bool {
	h := l.hosts[i]
	l.step("host %d shares %q (%d bytes)", i, name, len(data))
	write(filepath.Join(h.dir, "work", name), data)
	out, code := h.cli(h.inner+"/work", "share", name)
	items, err := parseItems(out)
	if code != 0 || err != nil || len(items) != 1 {
		l.fail("share", "sharing %q on host %d: code %d, output %q", name, i, code, out)
		return false
	}
	want := item{Name: name, Path: h.inner + "/work/" + name, Size: int64(len(data)), Hash: sum(data).String(), Chunks: int64(chunkCount(int64(len(data)), 1<<22)), ChunkSize: 1 << 22, Integrity: 100}
	want.Have = want.Chunks
	if items[0] != want {
		l.fail("share", "sharing on host %d printed %+v, want %+v", i, items[0], want)
		return false
	}
	l.holds[i][want.Hash] = data
	l.names[want.Hash] = name
	return true
}

// discovery checks that host i sees exactly the given hosts.
func (l *lanLab) discovery(i int, up []int) bool {
	l.step("host %d discovers", i)
	want := map[string]bool{}
	for _, k := range up {
		want[fmt.Sprintf("IP: %s:%d", l.hosts[k].ip, daemonPort)] = true
	}
	var out string
	for try := 0; try < 3; try++ { // a loaded machine may be late
		var code int
		out, code = l.hosts[i].cli("", "chims")
		if code != 0 {
			l.fail("discovery", "chims on host %d ended with %d: %q", i, code, out)
			return false
		}
		got := map[string]bool{}
		n := 0
		for _, line := range strings.Split(strings.TrimSpace(out), "\n") {
			got[line] = true
			n++
		}
		ok := n == len(want)
		for w := range want {
			ok = ok && got[w]
		}
		if ok {
			l.c.Obs("discoveries", 1)
			return true
		}
	}
	l.fail("discovery", "host %d discovers %q, want %v", i, out, sortedKeys(want))
	return false
}

// remote checks that host i is told what host k holds.
func (l *lanLab) remote(i, k int) bool {
	l.step("host %d lists host %d", i, k)
	var out string
	var code int
	for try := 0; try < 5; try++ {
		if out, code = l.hosts[i].cli("", "list", l.hosts[k].ip); code != 0 || !strings.Contains(out, "timeout") {
			break
		}
	}
	items, err := parseItems(out)
	if code != 0 || err != nil {
		l.fail("remote-list", "host %d listing host %d: code %d, output %q", i, k, code, out)
		return false
	}
	if len(items) != len(l.holds[k]) {
		l.fail("remote-list", "host %d is told of %d files on host %d, which holds %d: %q", i, len(items), k, len(l.holds[k]), out)
		return false
	}
	for _, it := range items {
		data, ok := l.holds[k][it.Hash]
		if !ok || it.Size != int64(len(data)) || it.Have != it.Chunks || it.Chunks != int64(chunkCount(int64(len(data)), 1<<22)) || strings.Contains(it.Path, "/") {
			l.fail("remote-list", "host %d is told of %+v on host %d, which is wrong (%d bytes, known: %v)", i, it, k, len(data), ok)
			return false
		}
	}
	l.c.Obs("remote listings", 1)
	return true
}

// local checks that a host lists what it holds.
func (l *lanLab) local(i int) bool {
	out, code := l.hosts[i].cli("", "list")
	items, err := parseItems(out)
	if code != 0 || err != nil || len(items) != len(l.holds[i]) {
		l.fail("local-list", "host %d lists %q (code %d, %v), but holds %d files", i, out, code, err, len(l.holds[i]))
		return false
	}
	for _, it := range items {
		data, ok := l.holds[i][it.Hash]
		file, err := readReg(l.hosts[i].path(it.Path))
		if !ok || err != nil || !bytes.Equal(file, data) || it.Have != it.Chunks || it.Size != int64(len(data)) {
			l.fail("local-list", "host %d lists %+v, which it does not hold like this (known: %v, %v)", i, it, ok, err)
			return false
		}
	}
	return true
}

// get requests a file and waits until it is there. With kill, the daemon is killed meanwhile.
func (l *lanLab) get(i int, data []byte, kill time.Duration) bool {
	h := l.hosts[i]
	hash := sum(data).String()
	l.step("host %d gets %s (%d bytes, kill after %v)", i, hash[:8], len(data), kill)
	request := func() bool {
		var out string
		for try := 0; try < 6; try++ {
			var code int
			out, code = h.cli("", "get", hash)
			if code == 0 && out == "Flu transfer initiated\n" {
				return true
			}
			if !h.check(l.kase, "when asked for a file") {
				return false
			}
		}
		l.fail("get", "host %d cannot request %s: %q", i, hash[:8], out)
		return false
	}
	if !request() {
		return false
	}
	if kill > 0 {
		time.Sleep(kill)
		h.kill()
		l.step("killed and restarted")
		if !l.start(i) || !request() {
			return false
		}
	}
	limit := 120 * time.Second
	if len(data) > 100000 {
		limit = 400 * time.Second
	}
	d0 := h.drops()
	var why string
	start := time.Now()
	for try := 0; ; try++ {
		var res cli.ListResponse
		err, answered := h.call("List", &cli.ListRequest{}, &res)
		if !answered {
			if h.check(l.kase, "during a download") {
				l.fail("rpc", "the daemon of host %d does not answer: %v", i, err)
			}
			return false
		}
		why = fmt.Sprintf("not listed (%v)", err)
		for _, it := range res.Items {
			if Hash(it.Sha1Hash).String() != hash {
				continue
			}
			why = fmt.Sprintf("%d of %d chunks", it.ChunksDownloaded, it.ChunkCount)
			if it.ChunksDownloaded < it.ChunkCount {
				continue
			}
			file, err := readReg(h.path(it.FilePath))
			if err != nil || !bytes.Equal(file, data) {
				l.fail("content", "host %d lists %s as complete, but its file differs: %v %s", i, hash[:8], err, firstDiff(file, data))
				return false
			}
			if filepath.Dir(h.path(it.FilePath)) != h.down() {
				l.fail("place", "the download went to %q", it.FilePath)
				return false
			}
			l.holds[i][hash] = data
			l.c.Obs("files fetched", 1)
			l.c.Obs("bytes fetched", len(data))
			return true
		}
		if time.Since(start) > limit {
			if d := h.drops() - d0; d > 0 && len(data) > 100000 {
				l.c.Obs("large downloads given up because the kernel dropped packets", 1)
				return false
			}
			l.fail("incomplete", "host %d has not got %s within %v: %s", i, hash[:8], limit, why)
			return false
		}
		l.c.Beat()
		time.Sleep(150 * time.Millisecond)
	}
}

// drops returns how many datagrams the kernel of a host has dropped.
func (h *Real) drops() int64 {
	data, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/snmp", h.holder.Process.Pid))
	var n int64
	var head []string
	for _, line := range strings.Split(string(data), "\n") {
		if f := strings.Fields(line); len(f) > 0 && f[0] == "Udp:" {
			if head == nil {
				head = f
				continue
			}
			for i := range f {
				if head[i] == "RcvbufErrors" || head[i] == "SndbufErrors" {
					v, _ := strconv.ParseInt(f[i], 10, 64)
					n += v
				}
			}
		}
	}
	return n
}

func c31(c *Ctx) {
	c.Rule(`Several real daemons in network namespaces of their own on a bridged LAN, driven through the real CLI: each shares
		files (odd and equal names, empty, up to several chunks), discovers and lists the others, fetches from them, is killed
		during a fetch and restarted, and fetches from a host that fetched, after the original host has gone. Every output and
		every file is compared with what was put there. Distinct by history.`)
	c.Assume("files of more than 100 KB are judged only if the kernel drops no datagrams")
	labs := c.N(4, 40)
	var mu sync.Mutex
	Par(5, labs, func(k int) {
		if c.Failed() > 10 {
			return
		}
		mu.Lock()
		l := newLanLab(c, k, 3+k%2)
		mu.Unlock()
		defer l.close()
		l.run(c.Rng("lab", k), k)
		c.Eval(strings.Join(l.log, ";"))
		c.Sample("history", l.log)
	})
}

func (l *lanLab) run(r *rand.Rand, k int) {
	n := len(l.hosts)
	var up []int
	for i := range l.hosts {
		if !l.start(i) {
			return
		}
		up = append(up, i)
	}
	names := []string{"same name.txt", "ünïcödé-✓.dat", "-dash", "two.dots.tar.gz", ".hidden", "(1).bin"}
	for i := range l.hosts {
		for j := 0; j < 2; j++ {
			size := []int{1, 5, 999, 1000, 1001, 1024, 2024, 40000, 60000}[r.IntN(9)]
			name := names[r.IntN(len(names))]
			if j == 0 {
				name = names[0]
			} else if name == names[0] {
				name = "other"
			}
			data := randBytes(r, size+8*i+j)
			if !l.share(i, name, data) {
				return
			}
		}
	}
	if k%2 == 0 && !l.share(0, "empty", nil) {
		return
	}
	for i := range l.hosts {
		if !l.discovery(i, up) || !l.local(i) {
			return
		}
		for j := range l.hosts {
			if !l.remote(i, j) {
				return
			}
		}
	}
	// fetch from each other
	pick := func(from, to int) []byte {
		for _, h := range sortedKeys(l.holds[from]) {
			if _, has := l.holds[to][h]; !has && len(l.holds[from][h]) > 0 {
				return l.holds[from][h]
			}
		}
		return nil
	}
	to := 1 + r.IntN(n-1)
	data := pick(0, to)
	if !l.get(to, data, time.Duration(1+r.IntN(4500))*time.Millisecond*time.Duration(k%2)) {
		return
	}
	if !l.local(to) || !l.remote((to+1)%n, to) {
		return
	}
	// both files with the same name
	third := (to + 1) % n
	if third == 0 {
		third = (to + 2) % n
	}
	if third != to && third != 0 {
		if d := pick(0, third); d != nil && !l.get(third, d, 0) {
			return
		}
		if d := pick(to, third); d != nil && !l.get(third, d, 0) {
			return
		}
	}
	if k%4 == 1 { // several chunks
		big := randBytes(r, 1<<22+300000)
		if !l.share(0, "big.bin", big) || !l.get(to, big, 0) {
			return
		}
	}
	// the original host goes for good; the others still have what they fetched
	l.step("host 0 is killed for good")
	l.hosts[0].kill()
	var rest []int
	for _, i := range up {
		if i != 0 {
			rest = append(rest, i)
		}
	}
	for _, i := range rest {
		if i != to {
			if _, has := l.holds[i][sum(data).String()]; !has {
				if !l.get(i, data, 0) {
					return
				}
			}
		}
	}
	for _, i := range rest {
		if !l.discovery(i, rest) {
			return
		}
	}
	// restarts keep everything
	for _, i := range rest {
		l.step("host %d is killed and restarted", i)
		l.hosts[i].kill()
		if !l.start(i) || !l.local(i) {
			return
		}
	}
	for _, i := range rest {
		for _, j := range rest {
			if !l.remote(i, j) {
				return
			}
		}
		if !l.hosts[i].check(l.kase, "at the end") {
			return
		}
	}
	l.c.Obs("labs completed", 1)
}
