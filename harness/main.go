// Command mon runs the monitors of one property against the code in /repo.
//
//	mon check ID   sets up a contained worker, judges what it reports and writes the evidence
//	mon work ID    is that worker
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type check struct {
	id    string
	level string
	run   func(*Ctx)
}

var checks = map[string]check{}

func register(id, level string, run func(*Ctx)) { checks[id] = check{id, level, run} }

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mon check|work ID")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parent(os.Args[2]))
	case "work":
		worker(os.Args[2])
	default:
		if f, ok := helpers[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

// helpers are further processes that some checks start, e.g. to have them killed.
var helpers = map[string]func(args []string){}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func worker(id string) {
	seed, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	c := newCtx(id, env("VERIF_TIER", "quick") != "thorough", seed, os.Getenv("MON_SCRATCH"), os.Getenv("MON_BIN"))
	netUp()
	limit := 150 * time.Second
	go c.watchdog(limit)
	checks[id].run(c)
	c.finish()
	os.Exit(0)
}

// parent runs as root, outside of the containment.
func parent(id string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	start := time.Now()
	verif := env("MON_VERIF", "/verif")
	scratch, bin := os.Getenv("MON_SCRATCH"), os.Getenv("MON_BIN")
	tier := env("VERIF_TIER", "quick")
	seed, err := strconv.Atoi(env("VERIF_SEED", "1"))
	if err != nil || seed < 0 {
		seed = 1
	}

	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	// the worker and whatever it starts live in a user namespace of an unprivileged user
	cmd := exec.Command("setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups",
		"unshare", "-Urnm", filepath.Join(bin, "mon"), "work", id)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + scratch, "TMPDIR=" + scratch, "LANG=C",
		"MON_ONLY=" + os.Getenv("MON_ONLY"), "MON_SCRATCH=" + scratch, "MON_BIN=" + bin, "VERIF_SEED=" + strconv.Itoa(seed), "VERIF_TIER=" + tier,
		"GOTRACEBACK=all", "GORACE=" + os.Getenv("GORACE")}
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	errFile, _ := os.Create(filepath.Join(filepath.Dir(bin), "stderr"))
	outFile, _ := os.Create(filepath.Join(filepath.Dir(bin), "stdout"))
	cmd.Stderr, cmd.Stdout = errFile, outFile
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start the worker:", err)
		return 2
	}
	pgid := cmd.Process.Pid
	waitCh := make(chan error, 1)
	go func() { waitCh <- cmd.Wait() }()
	var werr error
	timedOut := false
	select {
	case werr = <-waitCh:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-pgid, syscall.SIGQUIT)
		select {
		case werr = <-waitCh:
		case <-time.After(5 * time.Second):
		}
	}
	syscall.Kill(-pgid, syscall.SIGKILL)

	stderr := tail(errFile.Name(), 1<<20)
	var res Result
	data, rerr := os.ReadFile(filepath.Join(scratch, "result.json"))
	if rerr == nil {
		rerr = json.Unmarshal(data, &res)
	}
	if rerr != nil || !res.Done {
		// no result: the process died. If it was the code under test that killed it, that is a finding.
		crumbs := tail(filepath.Join(scratch, "crumbs"), 4096)
		i := bytes.Index(stderr, []byte("panic: "))
		if j := bytes.Index(stderr, []byte("fatal error: ")); i < 0 || (j >= 0 && j < i) {
			i = j
		}
		byClient := false
		head := stderr
		if i >= 0 {
			head = stderr[i:]
			// the first stack is that of the goroutine that died
			first := string(head)
			if k := strings.Index(first, "\n\ngoroutine "); k >= 0 {
				rest := first[k+2:]
				if k2 := strings.Index(rest, "\n\n"); k2 >= 0 {
					rest = rest[:k2]
				}
				first = first[:k] + "\n" + rest
			}
			byClient = strings.Contains(first, clientPkg) || bytes.HasPrefix(head, []byte("fatal error: all goroutines are asleep")) ||
				(bytes.HasPrefix(head, []byte("fatal error: ")) && strings.Contains(string(head), clientPkg))
		} else if werr == nil || strings.HasPrefix(werr.Error(), "exit status") {
			byClient = !timedOut // os.Exit or log.Fatal: nothing in the harness calls them
		}
		if !byClient {
			os.Stdout.Write(tail(errFile.Name(), 6000))
			fmt.Printf("INCONCLUSIVE property=%s the worker gave no result (%v, timed out: %v)\n%s\n", id, werr, timedOut, crumbs)
			return 2
		}
		if len(head) > 20000 {
			head = head[:20000]
		}
		res.Rule = "the process died"
		res.NViolations++
		res.Violations = append(res.Violations, Violation{Sig: "process-died",
			What:   fmt.Sprintf("the process running the client's code died (%v)", werr),
			Case:   string(crumbs),
			Detail: string(head)})
	}

	// data race reports, if this was built with the race detector
	for _, v := range raceReports(scratch) {
		res.NViolations++
		res.Violations = append(res.Violations, v)
	}

	known := knownFindings(filepath.Join(verif, "known-findings.txt"), id)
	fresh := []Violation{}
	for _, v := range res.Violations {
		if _, ok := known[v.Sig]; !ok {
			fresh = append(fresh, v)
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k])
	}

	wall := time.Since(start).Seconds()
	coverage := map[string]any{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                res.Rule,
		"samples":             res.Samples,
		"observed":            res.Observed,
	}
	if res.Samples == nil {
		coverage["samples"] = []any{}
	}
	if res.Exhaustive {
		coverage["exhaustive"] = true
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": ck.level, "coverage": coverage,
		"assumptions": append([]string{}, res.Assumptions...), "wall_s": wall, "violations": res.NViolations}
	evData, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(evData, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0755)
		replay := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		data, _ := json.MarshalIndent(map[string]any{
			"property": id, "tier": tier, "seed": seed, "violations": fresh,
			"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s", seed, tier, id),
		}, "", " ")
		os.WriteFile(replay, append(data, '\n'), 0644)
		for _, v := range fresh {
			what := strings.ReplaceAll(v.What, "\n", " ")
			if len(what) > 600 {
				what = what[:600]
			}
			fmt.Printf("%s: %s\n", v.Sig, what)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if res.Inconclusive != "" || res.Evaluations == 0 {
		fmt.Printf("INCONCLUSIVE property=%s %s (%d evaluations)\n", id, res.Inconclusive, res.Evaluations)
		return 2
	}
	fmt.Printf("OK property=%s: held on %d cases (%d distinct non-trivial) in %.1f s\n", id, res.Evaluations, res.Distinct, wall)
	for _, k := range sortedKeys(res.Observed) {
		fmt.Printf("  observed %s: %d\n", k, res.Observed[k])
	}
	return 0
}

func tail(path string, n int64) []byte {
	data, _ := os.ReadFile(path)
	if int64(len(data)) > n {
		// keep the beginning of a crash report, it is what matters
		if i := bytes.Index(data, []byte("panic: ")); i >= 0 && int64(len(data)-i) > n {
			return data[i : int64(i)+n]
		}
		return data[int64(len(data))-n:]
	}
	return data
}

// knownFindings reads lines "known: property=<id> sig=<sig> <what fails>".
func knownFindings(path, id string) map[string]string {
	result := map[string]string{}
	data, _ := os.ReadFile(path)
	for _, line := range strings.Split(string(data), "\n") {
		f := strings.Fields(line)
		if len(f) > 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			result[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
		}
	}
	return result
}

// raceReports collects the race detector's reports that involve the code under test.
func raceReports(scratch string) []Violation {
	var result []Violation
	seen := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(scratch, "*race.*"))
	for _, f := range files {
		daemon := strings.HasPrefix(filepath.Base(f), "daemonrace") // nothing in it is the harness's
		data, _ := os.ReadFile(f)
		for _, block := range strings.Split(string(data), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			sig, client := raceSig(block)
			if sig == "" {
				sig = "unknown code"
			}
			if (!client && !daemon) || seen[sig] {
				continue
			}
			seen[sig] = true
			if len(block) > 12000 {
				block = block[:12000]
			}
			result = append(result, Violation{Sig: "race:" + sig, What: "data race between " + sig, Detail: block})
		}
	}
	return result
}

// raceSig names the innermost frames of the code under test of the two accesses. The race is the
// client's if both accesses were made by (or on behalf of) its code.
func raceSig(block string) (string, bool) {
	var sides []string
	for _, part := range strings.Split(block, "\n\n") {
		if !strings.Contains(part, " at 0x") && !strings.Contains(part, "WARNING") {
			continue
		}
		for _, line := range strings.Split(part, "\n") {
			line = strings.TrimSpace(line)
			if strings.HasPrefix(line, clientPkg) {
				sides = append(sides, strings.TrimPrefix(line, clientPkg))
				break
			}
			if strings.HasPrefix(line, "main.") {
				break
			}
		}
	}
	return strings.Join(sides, " | "), len(sides) >= 2
}

func netUp() {
	for _, args := range []string{"link set lo up", "addr add 10.77.0.1/24 dev lo", "route add broadcast 255.255.255.255 dev lo"} {
		out, err := exec.Command("ip", strings.Fields(args)...).CombinedOutput()
		if err != nil {
			fmt.Fprintf(os.Stderr, "ip %s: %v %s\n", args, err, out)
		}
	}
}
