package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// checks maps a property to its check. Registered by init functions of the c*.go files.
var checks = map[string]func(c *Ctx){}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "child" {
		child(os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	replay := flag.String("replay", "", "replay file of a violation")
	dir := flag.String("dir", "/verif", "verif directory")
	flag.Parse()
	os.Exit(parent(*prop, *tier, *replay, *dir))
}

func getSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func child(args []string) {
	prop, tier, seedS, dir := args[0], args[1], args[2], args[3]
	resultPath = args[4]
	seed, _ := strconv.ParseInt(seedS, 10, 64)
	loadFindings(filepath.Join(dir, "known_findings.json"))
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Dir: dir, distinct: map[uint64]struct{}{}, counters: map[string]int64{}}
	if len(args) > 5 {
		var v Violation
		b, err := os.ReadFile(args[5])
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c.Seed, c.Tier = v.Seed, v.Tier
		c.only = &caseRef{v.Section, v.Index}
	}
	fn, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		os.Exit(3)
	}
	fn(c)
	c.finish()
	if len(c.viols) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func parent(prop, tier, replay, dir string) int {
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := getSeed()
	start := time.Now()
	work, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(work)
	res := filepath.Join(work, "result.json")
	self, _ := os.Executable()
	args := []string{"child", prop, tier, fmt.Sprint(seed), dir, res}
	if replay != "" {
		args = append(args, replay)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3 log_path="+filepath.Join(work, "race"),
		"VERIF_WORK="+work, "GOTRACEBACK=all")
	errf, _ := os.Create(filepath.Join(work, "stderr"))
	outf, _ := os.Create(filepath.Join(work, "stdout"))
	cmd.Stderr, cmd.Stdout = errf, outf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Kill() //nolint:errcheck
		werr = <-done
	}
	endSession(cmd.Process.Pid)
	stderr := tail(filepath.Join(work, "stderr"), 30000)
	races := raceReports(work)
	var r Result
	haveRes := false
	if b, err := os.ReadFile(res); err == nil {
		haveRes = json.Unmarshal(b, &r) == nil
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "[C") {
			fmt.Println(l)
		}
	}
	if !haveRes {
		if timedOut {
			fmt.Println("INCONCLUSIVE: watchdog fired")
			fmt.Print(stderr)
			return 3
		}
		// The process died under the workload: a crash of the code under test.
		if i := strings.Index(stderr, "panic:"); i >= 0 || strings.Contains(stderr, "fatal error:") {
			r.Viols = append(r.Viols, Violation{Property: prop, Seed: seed, Tier: tier, Section: "process",
				What: "process crashed: " + crashHead(stderr), Trace: stderr})
		} else {
			fmt.Printf("check error: child died without a result (%v)\n%s\n", werr, stderr)
			return 3
		}
	}
	if len(races) > 0 {
		if r.Counters == nil {
			r.Counters = map[string]int64{}
		}
		r.Counters["race_reports"] = int64(len(races))
		for i, rr := range races {
			if i >= 3 {
				break
			}
			r.Viols = append(r.Viols, Violation{Property: prop, Seed: seed, Tier: tier, Section: "race",
				What: "data race: " + raceHead(rr), Trace: rr})
		}
	}
	for _, k := range r.Known {
		fmt.Println(k)
	}
	rdir := filepath.Join(dir, ".build", "replay")
	os.MkdirAll(rdir, 0o755) //nolint:errcheck
	for i, v := range r.Viols {
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644) //nolint:errcheck
		w := v.What
		if len(w) > 1500 {
			w = w[:1500]
		}
		fmt.Printf("  [%s/%d] %s\n", v.Section, v.Index, w)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	}
	if replay == "" {
		writeEvidence(dir, prop, tier, seed, r, time.Since(start).Seconds())
	}
	for _, s := range r.Incon {
		fmt.Println("inconclusive:", s)
	}
	if len(r.Viols) > 0 {
		return 1
	}
	if r.Evals == 0 && replay == "" {
		fmt.Println("check error: nothing was observed")
		return 3
	}
	fmt.Printf("%s held on %d evaluations (%d distinct non-trivial), %.1fs\n", prop, r.Evals, r.Distinct, time.Since(start).Seconds())
	return 0
}

// endSession ends the processes (etcd, kube-apiserver, ...) that a dead child left behind in its session.
func endSession(sid int) {
	fs, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		i := strings.LastIndexByte(string(b), ')')
		fl := strings.Fields(string(b)[i+1:])
		if i < 0 || len(fl) < 4 || fl[3] != fmt.Sprint(sid) {
			continue
		}
		if pid, err := strconv.Atoi(filepath.Base(filepath.Dir(f))); err == nil {
			syscall.Kill(pid, syscall.SIGKILL) //nolint:errcheck
		}
	}
}

func crashHead(s string) string {
	for _, m := range []string{"fatal error:", "panic:"} {
		if i := strings.Index(s, m); i >= 0 {
			e := s[i:]
			if len(e) > 1200 {
				e = e[:1200]
			}
			return e
		}
	}
	return ""
}

func tail(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	s := string(b)
	// keep the crash head, if any
	if len(s) > n {
		for _, m := range []string{"fatal error:", "panic:"} {
			if i := strings.Index(s, m); i >= 0 {
				e := i + n
				if e > len(s) {
					e = len(s)
				}
				return s[i:e]
			}
		}
		return s[len(s)-n:]
	}
	return s
}

// raceReports returns the race reports which involve code of the repository, deduplicated by their
// stacks without line numbers.
func raceReports(work string) []string {
	fs, _ := filepath.Glob(filepath.Join(work, "race.*"))
	seen := map[string]bool{}
	var ret []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			k := raceKey(blk)
			if !relevantRace(blk) || seen[k] {
				continue
			}
			seen[k] = true
			ret = append(ret, blk)
		}
	}
	return ret
}

func raceKey(blk string) string {
	var fns []string
	for _, l := range strings.Split(blk, "\n") {
		if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
			fns = append(fns, strings.TrimSpace(l))
		}
		if strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return strings.Join(fns, "|")
}

// relevantRace: one of the two conflicting accesses is made by repository code (directly or in a
// library it called), i.e. a /repo frame occurs in an access stack.
func relevantRace(blk string) bool {
	acc := blk
	if i := strings.Index(acc, "\nGoroutine"); i > 0 {
		acc = acc[:i]
	}
	return strings.Contains(acc, "github.com/l7mp/dcontroller/")
}

func raceHead(blk string) string {
	var out []string
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") {
			out = append(out, strings.SplitN(t, " at ", 2)[0])
		} else if strings.Contains(t, "l7mp/dcontroller") && !strings.HasPrefix(t, "/") && len(out) < 8 {
			out = append(out, t)
		}
	}
	return strings.Join(out, " <- ")
}

func writeEvidence(dir, prop, tier string, seed int64, r Result, wall float64) {
	cov := map[string]any{
		"evaluations":         r.Evals,
		"distinct_nontrivial": r.Distinct,
		"rule":                strings.Join(r.Rules, " "),
		"samples":             r.Samples,
		"observed":            r.Counters,
		"known_findings":      r.Known,
	}
	if r.Samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": r.Assume, "wall_s": wall, "violations": len(r.Viols)}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)                                 //nolint:errcheck
	os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644) //nolint:errcheck
}
