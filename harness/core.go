package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is the context of one check run (one property). It runs cases, counts what was observed and
// collects violations.
type Ctx struct {
	Prop string
	Tier string
	Seed int64
	Dir  string // /verif

	only *caseRef // replay: run this case only
	// crashOnly: judge crashes and hangs only; what a workload finds wrong otherwise is the business
	// of the property it was written for.
	crashOnly bool

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []any
	rules    []string
	assume   []string
	viols    []Violation
	known    []string
	incon    []string
}

type caseRef struct {
	Section string `json:"section"`
	Index   int    `json:"index"`
}

// Violation is a refutation of the property with everything needed to replay it.
type Violation struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Section  string `json:"section"`
	Index    int    `json:"index"`
	What     string `json:"what"`
	Trace    any    `json:"trace,omitempty"`
}

// K is one case.
type K struct {
	*Ctx
	R       *rand.Rand
	Section string
	Index   int
	trace   []string
	traceMu sync.Mutex
}

type abortCase struct{}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) Rule(format string, a ...any)   { c.rules = append(c.rules, fmt.Sprintf(format, a...)) }
func (c *Ctx) Assume(format string, a ...any) { c.assume = append(c.assume, fmt.Sprintf(format, a...)) }

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	if c.counters[name] < int64(n) {
		c.counters[name] = int64(n)
	}
	c.mu.Unlock()
}

// Nontrivial registers an observation which counts as distinct if its key was not seen before.
func (c *Ctx) Nontrivial(format string, a ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.mu.Lock()
	c.distinct[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Eval(n int) { atomic.AddInt64(&c.evals, int64(n)) }

func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) failed() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viols) }

func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.incon = append(c.incon, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *Ctx) addViolation(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viols) < 8 {
		c.viols = append(c.viols, v)
	}
}

// Log adds to the case's trace, which ends up in the replay file.
func (k *K) Log(format string, a ...any) {
	k.traceMu.Lock()
	if len(k.trace) < 2000 {
		k.trace = append(k.trace, fmt.Sprintf(format, a...))
	}
	k.traceMu.Unlock()
}

// Fail reports a violation and ends the case.
func (k *K) Fail(format string, a ...any) {
	k.Report(format, a...)
	panic(abortCase{})
}

// Report reports a violation and continues (usable from any goroutine).
func (k *K) Report(format string, a ...any) {
	if k.crashOnly {
		if s := fmt.Sprintf(format, a...); !crashLike(s) {
			k.Count("disagreements left to other properties", 1)
			k.Sample("left to other properties: " + k.Section + ": " + clip(s, 300))
			return
		}
	}
	k.traceMu.Lock()
	tr := append([]string{}, k.trace...)
	k.traceMu.Unlock()
	k.addViolation(Violation{Property: k.Prop, Seed: k.Seed, Tier: k.Tier, Section: k.Section,
		Index: k.Index, What: fmt.Sprintf(format, a...), Trace: tr})
}

func crashLike(s string) bool {
	for _, x := range []string{"panic in ", "panic: ", "(hang or deadlock)", "(endless loop or deadlock)"} {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (k *K) Check(cond bool, format string, a ...any) {
	if !cond {
		k.Fail(format, a...)
	}
}

// Protect runs code under test; a panic in it is a violation.
func (k *K) Protect(what string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortCase); ok {
				panic(r)
			}
			k.Fail("panic in %s: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	fn()
}

// Within runs fn and reports a violation when it does not return within a very generous bound: the
// operations given to it take milliseconds. The bound is a hang detector, never a timing oracle.
func (k *K) Within(what string, d time.Duration, fn func()) {
	done := make(chan any, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- r
				return
			}
			done <- nil
		}()
		fn()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(d):
		buf := make([]byte, 1<<18)
		n := runtime.Stack(buf, true)
		k.Log("goroutines at hang:\n%s", string(buf[:n]))
		k.Fail("%s did not return within %v (hang or deadlock)", what, d)
	}
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func subSeed(seed int64, section string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, section, i)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Section runs n cases (in parallel over `workers` goroutines). The list of cases depends on the
// seed and the tier only.
func (c *Ctx) SectionT(name string, n, workers int, perCase time.Duration, fn func(k *K)) {
	if c.only != nil && c.only.Section != name {
		return
	}
	start := time.Now()
	var next int64 = -1
	var wg sync.WaitGroup
	var running sync.Map // index -> start time
	stop := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.failed() >= 3 {
					return
				}
				if c.only != nil && c.only.Index != i {
					continue
				}
				k := &K{Ctx: c, R: rand.New(rand.NewSource(subSeed(c.Seed, name, i))), Section: name, Index: i}
				running.Store(i, caseRun{k, time.Now()})
				c.runCase(k, fn)
				running.Delete(i)
			}
		}()
	}
	// hang detector over the cases
	go func() {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				running.Range(func(key, val any) bool {
					r := val.(caseRun)
					if time.Since(r.t) > perCase {
						buf := make([]byte, 1<<20)
						m := runtime.Stack(buf, true)
						r.k.Log("goroutines at hang:\n%s", string(buf[:m]))
						r.k.Report("case did not finish within %v (endless loop or deadlock)", perCase)
						c.finish()
						os.Exit(1)
					}
					return true
				})
			}
		}
	}()
	wg.Wait()
	close(stop)
	c.Count("cases:"+name, n)
	fmt.Fprintf(os.Stderr, "[%s] section %s: %d cases in %.1fs\n", c.Prop, name, n, time.Since(start).Seconds())
}

type caseRun struct {
	k *K
	t time.Time
}

func (c *Ctx) Section(name string, n, workers int, fn func(k *K)) {
	c.SectionT(name, n, workers, 120*time.Second, fn)
}

func (c *Ctx) runCase(k *K, fn func(k *K)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortCase); ok {
				return
			}
			k.Report("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	c.Eval(1)
	fn(k)
}

// ---- known findings -------------------------------------------------------------------------

type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

var findings = map[string]Finding{}

func loadFindings(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(3)
	}
	for _, x := range f.Findings {
		findings[x.ID] = x
	}
}

// Probe deterministically checks one specific failing input. If it fails and the finding is listed
// as open for this property, it is printed as known; otherwise it is a violation.
func (c *Ctx) Probe(id string, fn func(k *K)) {
	if c.only != nil && (c.only.Section != "probe:"+id) {
		return
	}
	f, ok := findings[id]
	before := c.failed()
	k := &K{Ctx: c, R: rand.New(rand.NewSource(subSeed(c.Seed, "probe:"+id, 0))), Section: "probe:" + id}
	c.runCase(k, fn)
	c.Count("probes", 1)
	if c.failed() == before {
		return
	}
	if ok && f.Status == "open" && f.Property == c.Prop {
		c.mu.Lock()
		what := c.viols[len(c.viols)-1].What
		c.viols = c.viols[:before]
		if i := strings.IndexByte(what, '\n'); i > 0 {
			what = what[:i]
		}
		c.known = append(c.known, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s]", c.Prop, f.What, f.ID))
		c.mu.Unlock()
	}
}

// ---- result ----------------------------------------------------------------------------------

type Result struct {
	Evals    int64            `json:"evals"`
	Distinct int              `json:"distinct"`
	Counters map[string]int64 `json:"counters"`
	Samples  []any            `json:"samples"`
	Rules    []string         `json:"rules"`
	Assume   []string         `json:"assume"`
	Viols    []Violation      `json:"viols"`
	Known    []string         `json:"known"`
	Incon    []string         `json:"inconclusive"`
}

var resultPath string
var finishOnce sync.Once

func (c *Ctx) finish() {
	finishOnce.Do(func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		r := Result{Evals: atomic.LoadInt64(&c.evals), Distinct: len(c.distinct), Counters: c.counters,
			Samples: c.samples, Rules: c.rules, Assume: c.assume, Viols: c.viols, Known: c.known, Incon: c.incon}
		b, err := json.MarshalIndent(r, "", " ")
		if err != nil {
			r.Samples = []any{fmt.Sprint(c.samples)}
			b, _ = json.Marshal(r)
		}
		if err := os.WriteFile(resultPath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	})
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}
