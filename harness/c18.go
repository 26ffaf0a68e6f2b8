package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-logr/logr"
	apiextv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/controller"
	"github.com/l7mp/dcontroller/pkg/operator"
)

// C18: errors are reported faithfully and never disturb processing.

func init() {
	checks["C18"] = func(c *Ctx) {
		c.Rule("evaluations = operations on an error reporter compared with a model (or concurrent histories whose outcome was checked), and controllers whose status was compared with what happened to them")
		c.Rule("distinct_nontrivial = distinct error histories and controller mixes")
		c.Assume("a controller that has reported an error does not become ready again: the status retains the last 10 errors")
		c.Section("error reporter", c.N(3000, 100000), 8, c18sequential)
		c.Section("error reporter, concurrent", c.N(120, 3000), 8, c18concurrent)
		c.Section("error reporter, full channel", c.N(6, 24), 6, c18full)
		c.Section("invalid controllers", c.N(150, 4000), 8, c18invalid)
		c.Section("failing controllers", c.N(60, 1500), 8, c18failing)
		c.SectionT("sources that never sync", 1, 1, 400*time.Second, c18nosync)
	}
}

func c18msg(r *rand.Rand, i int) string {
	switch r.Intn(6) {
	case 0: // the same error again and again
		return pick(r, "again", strings.Repeat("again and ", 40)+"again")
	case 1: // the difference is in the middle
		return fmt.Sprintf("cannot write %s object %d %s: timeout", strings.Repeat("x", 150), i, strings.Repeat("y", 150))
	}
	s := fmt.Sprintf("error %d:", i)
	switch r.Intn(4) {
	case 0:
		s += strings.Repeat("x", r.Intn(400))
	case 1:
		s += strings.Repeat("é", r.Intn(300))
	case 2:
		s += strings.Repeat("ab%d", r.Intn(30))
	}
	return s + fmt.Sprintf(":end %d", i)
}

// sameMsg tells whether a reported message is the given one, possibly with the middle removed.
func sameMsg(rep, msg string) bool {
	if rep == msg {
		return true
	}
	if len(msg) <= 240 || len(rep) < 200 || len(rep) > len(msg) {
		return false
	}
	return rep[:100] == msg[:100] && rep[len(rep)-100:] == msg[len(msg)-100:]
}

func sameErr(got, want error) bool {
	return got == nil && want == nil || got != nil && want != nil && got.Error() == want.Error()
}

func c18sequential(k *K) {
	r := k.R
	var ch chan error
	mode := r.Intn(4)
	if mode > 0 {
		ch = make(chan error, []int{0, 1, 16}[r.Intn(3)])
	}
	rep := controller.NewErrorReporter(&controller.DeclarativeController{}, ch)
	if mode == 2 {
		close(ch)
	}
	var stack []string
	critical := false
	n := 1 + r.Intn(30)
	sig := ""
	for i := 0; i < n; i++ {
		msg := c18msg(r, i)
		var err error
		op := ""
		k.Within("pushing an error", 30*time.Second, func() {
			switch x := r.Intn(16); {
			case x < 5:
				op, err = "push", rep.Push(errors.New(msg))
			case x < 8:
				op, err = "push", rep.PushError(msg)
			case x < 11:
				op, err = "push", rep.PushErrorf("%s", msg)
			case x < 12:
				op, err = "critical", rep.PushCritical(errors.New(msg))
			case x < 13 && r.Intn(3) == 0:
				op, err = "critical", rep.PushCriticalError(msg)
			case x < 14 && r.Intn(3) == 0:
				op, err = "critical", rep.PushCriticalErrorf("%s", msg)
			default:
				op = "pop"
				rep.Pop()
			}
		})
		sig += op[:1]
		if op == "pop" {
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		} else {
			if err == nil || err.Error() != msg {
				k.Fail("%s returns %v instead of %q", op, err, msg)
			}
			var e controller.Error
			if !errors.As(err, &e) {
				k.Fail("%s does not return a controller error", op)
			}
			critical = critical || op == "critical"
			stack = append(stack, msg)
			if len(stack) > 10 {
				stack = stack[1:]
			}
		}
		got := rep.Report()
		ok := len(got) == len(stack) && rep.Size() == len(stack) && rep.IsEmpty() == (len(stack) == 0) && rep.HasCritical() == critical
		for j := range stack {
			ok = ok && sameMsg(got[j], stack[j])
		}
		top := rep.Top()
		ok = ok && (top != nil) == (len(stack) > 0) && (top == nil || top.Error() == stack[len(stack)-1])
		if !ok {
			k.Fail("after %s: report %q, size %d, critical %v, top %v; want %q, critical %v", sig, got, rep.Size(), rep.HasCritical(), top, stack, critical)
		}
		k.Eval(1)
	}
	k.Count("reporter_operations", n)
	k.Nontrivial("seq %s %d", sig, mode)
}

// c18full: an error channel that has been full once still gets the later errors.
func c18full(k *K) {
	ch := make(chan error, k.Index%3)
	rep := controller.NewErrorReporter(&controller.DeclarativeController{}, ch)
	k.Within("pushing to a full error channel", 20*time.Second, func() {
		for i := 0; i <= cap(ch)+1; i++ {
			rep.PushErrorf("early-%d", i) //nolint:errcheck
		}
	})
	drain := func(d time.Duration) (n int) {
		for {
			select {
			case <-ch:
				n++
			case <-time.After(d):
				return
			}
		}
	}
	n := 0
	for i := 0; i < 200 && n < cap(ch)+1; i++ { // at most this many can have been sent
		n += drain(50 * time.Millisecond)
		if i > 20 && n > 0 {
			break
		}
	}
	k.Check(n > 0, "no error arrives in a channel of capacity %d", cap(ch))
	ok := false
	for i := 0; i < 4 && !ok; i++ {
		time.Sleep(2100 * time.Millisecond)                                                              // the updates are rate limited
		k.Within("pushing to an error channel", 20*time.Second, func() { rep.PushErrorf("late-%d", i) }) //nolint:errcheck
		ok = drain(500*time.Millisecond) > 0
	}
	k.Eval(1)
	k.Nontrivial("full %d", cap(ch))
	if !ok {
		k.Fail("after an error channel of capacity %d has been full once, no error arrives there", cap(ch))
	}
}

func c18concurrent(k *K) {
	r := k.R
	ch := make(chan error, []int{0, 1, 64}[r.Intn(3)])
	rep := controller.NewErrorReporter(&controller.DeclarativeController{}, ch)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	recvd := []string{}
	var rmu sync.Mutex
	reader := r.Intn(2) == 0
	if reader {
		go func() {
			for {
				select {
				case e := <-ch:
					rmu.Lock()
					recvd = append(recvd, e.Error())
					rmu.Unlock()
				case <-ctx.Done():
					return
				}
			}
		}()
	}
	procs, n := 2+r.Intn(6), 1+r.Intn(40)
	closeCh := !reader && r.Intn(3) == 0
	crit := r.Intn(2) == 0
	var wg, rg sync.WaitGroup
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k.Protect("pushing errors", func() {
				for i := 0; i < n; i++ {
					if crit && p == 0 && i == n/2 {
						rep.PushCriticalErrorf("p%d-%d", p, i)
					} else {
						rep.Push(fmt.Errorf("p%d-%d", p, i)) //nolint:errcheck
					}
				}
			})
		}()
	}
	stop := make(chan struct{})
	for p := 0; p < 2; p++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				last := map[string]int{}
				rp := rep.Report()
				if len(rp) > 10 {
					k.Report("%d errors retained", len(rp))
				}
				for _, s := range rp {
					ps, is, _ := strings.Cut(s, "-")
					i := 0
					fmt.Sscan(is, &i) //nolint:errcheck
					if l, ok := last[ps]; ok && i != l+1 {
						k.Report("errors lost or out of order in the report: %v", rp)
						return
					}
					last[ps] = i
				}
				_, _, _, _ = rep.Top(), rep.IsEmpty(), rep.HasCritical(), rep.String()
			}
		}()
	}
	if closeCh {
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		if !k.crashOnly { // the race detector is right to call this a race, but the closing is ours
			close(ch)
		}
	}
	k.Within("pushing errors concurrently", 45*time.Second, wg.Wait)
	close(stop)
	rg.Wait()
	rp := rep.Report()
	want := min(10, procs*n)
	if len(rp) != want || rep.Size() != want {
		k.Fail("%d errors retained after %d", len(rp), procs*n)
	}
	// the retained errors are the last ones: those of each process form a suffix
	seen := map[string][]string{}
	for _, s := range rp {
		p, _, _ := strings.Cut(s, "-")
		seen[p] = append(seen[p], s)
	}
	for p, ss := range seen {
		for j, s := range ss {
			if s != fmt.Sprintf("%s-%d", p, n-len(ss)+j) {
				k.Fail("the report does not hold the last errors: %v", rp)
			}
		}
	}
	if rep.HasCritical() != crit {
		k.Fail("critical %v, want %v", rep.HasCritical(), crit)
	}
	if reader {
		deadline := time.Now().Add(30 * time.Second)
		for {
			rmu.Lock()
			got := append([]string{}, recvd...)
			rmu.Unlock()
			dup := map[string]bool{}
			for _, s := range got {
				if dup[s] {
					k.Fail("error %s sent twice", s)
				}
				dup[s] = true
			}
			if len(got) > 0 {
				k.Count("errors_received", len(got))
				break
			}
			if time.Now().After(deadline) {
				k.Fail("no error was sent on the error channel")
			}
			time.Sleep(time.Millisecond)
		}
	}
	k.Eval(1)
	k.Nontrivial("conc %v", rp)
}

// statusOf checks a controller status for consistency.
func c18status(k *K, op *operator.Operator, gen int64) map[string]opv1a1.ControllerStatus {
	out := map[string]opv1a1.ControllerStatus{}
	st := op.GetStatus(gen)
	for _, cs := range st.Controllers {
		out[cs.Name] = cs
		if len(cs.Conditions) != 1 || cs.Conditions[0].Type != "Ready" || cs.Conditions[0].ObservedGeneration != gen {
			k.Fail("controller %s: unexpected conditions %v", cs.Name, cs.Conditions)
		}
		if ready := cs.Conditions[0].Status == metav1.ConditionTrue; ready != (len(cs.LastErrors) == 0) || len(cs.LastErrors) > 10 {
			k.Fail("controller %s: status %s with %d errors: %q", cs.Name, cs.Conditions[0].Status, len(cs.LastErrors), cs.LastErrors)
		}
	}
	return out
}

// breakConf makes a controller invalid.
func breakConf(r *rand.Rand, c *opv1a1.Controller) string {
	bad := opv1a1.Source{Resource: opv1a1.Resource{Kind: "Alpha"}}
	addSrc := func() {
		if r.Intn(2) == 0 {
			c.Sources = append(c.Sources, bad)
		} else {
			c.Sources = append([]opv1a1.Source{bad}, c.Sources...)
		}
	}
	switch r.Intn(8) {
	case 0:
		c.Sources = nil
		return "no sources"
	case 1:
		c.Target = opv1a1.Target{}
		return "no target"
	case 2:
		c.Pipeline.Ops = append(c.Pipeline.Ops, c.Pipeline.Ops...)
		c.Pipeline.Ops = append(c.Pipeline.Ops, opv1a1.Pipeline{}.Ops...)
		c.Sources = append(c.Sources, opv1a1.Source{Resource: opv1a1.Resource{Kind: "Beta"}})
		c.Pipeline.Ops = nil
		return "several sources without a join"
	case 3:
		bad.LabelSelector = &metav1.LabelSelector{MatchExpressions: []metav1.LabelSelectorRequirement{{Key: "a", Operator: "Bogus", Values: []string{"x"}}}}
		addSrc()
		return "invalid selector"
	case 4:
		bad.Kind = ""
		addSrc()
		return "no kind"
	case 5:
		bad = opv1a1.Source{Resource: opv1a1.Resource{Kind: "Tick"}, Type: opv1a1.Periodic, Parameters: &apiextv1.JSON{Raw: []byte(`{"period": "-1s"}`)}}
		addSrc()
		return "invalid period"
	case 6:
		c.Target.Kind = ""
		g := "x.view.dcontroller.io"
		c.Target.Group = &g
		return "no target kind"
	default:
		bad.LabelSelector = &metav1.LabelSelector{MatchLabels: map[string]string{"a": "not a label value!"}}
		addSrc()
		return "invalid label"
	}
}

// c18invalid runs invalid controllers along with valid ones.
func c18invalid(k *K) {
	r := k.R
	w := newWorld(k, logr.Discard())
	defer w.close()
	ops := w.genOps(0)
	names := 2 + r.Intn(4)
	type badCtrl struct{ op, name, why, target string }
	var bads []badCtrl
	for i := range ops {
		var cs []*ctrlSpec
		if len(ops[i]) > 0 {
			cs = ops[i]
		} else {
			continue
		}
		opn := cs[0].op
		o := &opRun{name: opn, ctrls: cs, errs: make(chan error, []int{0, 1, 64}[r.Intn(3)])}
		reads := r.Intn(2) == 0
		var err error
		var cc cache.Cache = w.shared
		o.op, err = operator.New(opn, nil, operator.Options{Cache: cc, ErrorChannel: o.errs, Logger: w.log})
		k.Check(err == nil, "operator: %v", err)
		spec := &opv1a1.OperatorSpec{}
		for _, c := range cs {
			spec.Controllers = append(spec.Controllers, c.conf)
		}
		for b := r.Intn(5); b > 0; b-- {
			p := genPipe1(r, 0, 1, []string{"Alpha"})
			tk := fmt.Sprintf("Bad%d", len(bads))
			p.target = opGVK(opn, tk)
			p.gvks[0] = w.kinds[r.Intn(len(w.kinds))]
			c := &ctrlSpec{name: "bad-" + tk, op: opn, p: p}
			c.configure(k, opv1a1.Updater)
			bc := badCtrl{op: opn, name: c.name, target: tk}
			bc.why = breakConf(r, &c.conf)
			if r.Intn(8) == 0 {
				c.conf.Name, bc.name = "", ""
				bc.why += ", no name"
			}
			bads = append(bads, bc)
			at := r.Intn(len(spec.Controllers) + 1)
			spec.Controllers = append(spec.Controllers[:at], append([]opv1a1.Controller{c.conf}, spec.Controllers[at:]...)...)
			k.Log("invalid controller %s/%s: %s", opn, c.name, bc.why)
		}
		if reads {
			go func() {
				for {
					select {
					case <-o.errs:
					case <-w.ctx.Done():
						return
					}
				}
			}()
		}
		k.Within("adding controllers", 45*time.Second, func() { o.op.AddSpec(spec) })
		if got := len(o.op.GetStatus(1).Controllers); got != len(spec.Controllers) {
			k.Fail("%d controllers have a status instead of %d", got, len(spec.Controllers))
		}
		w.ops = append(w.ops, o)
	}
	w.burst(1, 1+r.Intn(10), names, nil)
	for _, o := range w.ops {
		w.start(o)
	}
	for round := 0; round < 2; round++ {
		w.burst(1+r.Intn(2), 1+r.Intn(10), names, nil)
		w.settle("besides invalid controllers", nil, nil)
		for _, o := range w.ops {
			select {
			case err := <-o.done:
				k.Fail("operator %s has stopped: %v", o.name, err)
			default:
			}
			st := c18status(k, o.op, int64(round+3))
			for _, c := range o.ctrls {
				// the random pipelines may fail on some objects
				if s := st[c.name]; len(s.Conditions) == 0 || s.Conditions[0].Status == metav1.ConditionFalse {
					k.Fail("valid controller %s is %s: %q", c.name, s.Conditions[0].Status, s.LastErrors)
				}
				k.Eval(1)
			}
			for _, b := range bads {
				if b.op != o.name {
					continue
				}
				s := st[b.name]
				if len(s.Conditions) == 0 || s.Conditions[0].Status != metav1.ConditionFalse || len(s.LastErrors) == 0 {
					k.Fail("invalid controller %s (%s) has status %v", b.name, b.why, s)
				}
				if got := w.list(opGVK(b.op, b.target)); len(got) != 0 {
					k.Fail("invalid controller %s (%s) writes its target: %v", b.name, b.why, got)
				}
				k.Nontrivial("invalid %s %q", b.why, s.LastErrors)
				k.Count("invalid_controllers", 1)
				k.Eval(1)
			}
		}
	}
}

// c18failing runs controllers that fail on some of the objects.
func c18failing(k *K) {
	r := k.R
	log := logr.Discard()
	if r.Intn(3) == 0 {
		log = jitterLog(r.Int63(), uint64(20+r.Intn(200)))
	}
	w := newWorld(k, log)
	defer w.close()
	w.kinds = append(w.kinds, opGVK("aop", "Alpha"))
	src := w.kinds[0]
	spec := &opv1a1.OperatorSpec{}
	var cs []*ctrlSpec
	nbad, ngood := 1+r.Intn(3), 1+r.Intn(2)
	for i := 0; i < nbad+ngood; i++ {
		proj := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "spec": m{"i": "$.spec.i"}}
		if i < nbad {
			proj["spec"] = m{"i": "$.spec.i", "x": m{"@not": "$.spec.flag"}}
		}
		c := &ctrlSpec{name: fmt.Sprintf("c%d", i), op: "aop", p: &pspec{stages: []stage{{"@project", proj}}, kinds: []string{"Alpha"},
			gvks: w.kinds, target: opGVK("aop", fmt.Sprintf("T%d", i))}}
		c.configure(k, opv1a1.Updater)
		cs = append(cs, c)
		spec.Controllers = append(spec.Controllers, c.conf)
	}
	o := &opRun{name: "aop", ctrls: cs, errs: make(chan error, []int{0, 1, 64}[r.Intn(3)])}
	var err error
	o.op, err = operator.New("aop", nil, operator.Options{Cache: w.shared, ErrorChannel: o.errs, Logger: log})
	k.Check(err == nil, "operator: %v", err)
	o.op.AddSpec(spec)
	w.ops = append(w.ops, o)
	reader := r.Intn(3)
	var nrecv atomic.Int64
	if reader == 0 {
		go func() {
			for {
				select {
				case e := <-o.errs:
					nrecv.Add(1)
					var ce controller.Error
					if !errors.As(e, &ce) || ce.Operator != "aop" {
						k.Report("unexpected error %v", e)
					}
				case <-w.ctx.Done():
					return
				}
			}
		}()
	}
	w.start(o)
	// concurrent status reads
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() { recover() }() //nolint:errcheck // the case has failed
		for {
			select {
			case <-stop:
				return
			default:
				c18status(k, o.op, 7)
				time.Sleep(50 * time.Microsecond)
			}
		}
	}()
	cl := w.shared.GetClient()
	ctx := context.Background()
	bad, repaired := map[string]bool{}, map[string]bool{}
	put := func(name string, flag any) {
		x := vobjKey(src, "default/"+name)
		x.Object["spec"] = map[string]any{"i": int64(r.Intn(5)), "flag": flag}
		if err := cl.Create(ctx, x); err != nil {
			k.Fail("create %s: %v", name, err)
		}
	}
	ever := false
	for round := 1 + r.Intn(2); round > 0; round-- {
		for i := 0; i < 6; i++ {
			put(fmt.Sprintf("good%d", r.Intn(6)), r.Intn(2) == 0)
			if r.Intn(2) == 0 {
				n := fmt.Sprintf("bad%d", r.Intn(5))
				put(n, "oops")
				bad[n], ever = true, true
			}
		}
		// the good objects are processed
		deadline := time.Now().Add(60 * time.Second)
		for {
			have := w.list(src)
			missing := ""
			for _, c := range cs {
				got := w.list(c.p.target)
				for ky, s := range have {
					if c.name < fmt.Sprintf("c%d", nbad) && strings.Contains(ky, "bad") {
						continue
					}
					g, ok := got[ky]
					if !ok || canon(sub(g, "spec")["i"]) != canon(sub(s, "spec")["i"]) {
						missing = fmt.Sprintf("controller %s: %s is not processed: %s", c.name, ky, canon(g))
					}
				}
				if c.name < fmt.Sprintf("c%d", nbad) {
					for n := range bad {
						if g, ok := got["default/"+n]; ok && !repaired[n] {
							k.Fail("controller %s produces %s", c.name, canon(g))
						}
					}
				}
			}
			st := c18status(k, o.op, 1)
			for i, c := range cs {
				s := st[c.name]
				switch {
				case i < nbad && ever:
					if s.Conditions[0].Status != metav1.ConditionUnknown {
						missing = fmt.Sprintf("failing controller %s is %s", c.name, s.Conditions[0].Status)
					}
					for _, e := range s.LastErrors {
						if !strings.Contains(e, "bad") {
							k.Fail("failing controller %s reports %q", c.name, e)
						}
					}
				default:
					if len(s.LastErrors) > 0 {
						k.Fail("healthy controller %s reports %q", c.name, s.LastErrors)
					}
				}
			}
			if missing == "" {
				break
			}
			if time.Now().After(deadline) {
				k.Fail("with failing objects: %s", missing)
			}
			time.Sleep(time.Millisecond)
		}
		k.Eval(len(cs))
		k.Count("failing_objects", len(bad))
		k.Nontrivial("failing %d %d %v %d", nbad, ngood, sortedKeys(bad), k.Index)
		// repair the failing objects: they are processed on retry or on the change
		for n := range bad {
			put(n, false)
			repaired[n] = true
		}
		bad = map[string]bool{}
		w.settle("after repairing the failing objects", nil, nil)
	}
	if reader == 0 && ever {
		deadline := time.Now().Add(30 * time.Second)
		for nrecv.Load() == 0 {
			if time.Now().After(deadline) {
				k.Fail("no error was sent on the error channel")
			}
			time.Sleep(time.Millisecond)
		}
	}
	close(stop)
	wg.Wait()
}

// c18nosync has a source of a kind that does not exist.
func c18nosync(k *K) {
	w := newWorld(k, logr.Discard())
	defer w.close()
	w.kinds = append(w.kinds, opGVK("aop", "Alpha"))
	mk := func(i int) *ctrlSpec {
		c := &ctrlSpec{name: fmt.Sprintf("c%d", i), op: "aop", p: &pspec{stages: []stage{{"@project", m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "spec": "$.spec"}}},
			kinds: []string{"Alpha"}, gvks: w.kinds, target: opGVK("aop", fmt.Sprintf("T%d", i)), safe: true}}
		c.configure(k, opv1a1.Updater)
		return c
	}
	good, bad := mk(0), mk(1)
	g, v := "none.example.com", "v1"
	bad.conf.Sources[0].Group, bad.conf.Sources[0].Version = &g, &v
	o := w.create("aop", []*ctrlSpec{good, bad})
	o.ctrls = []*ctrlSpec{good}
	w.ops = append(w.ops, o)
	w.start(o)
	wait := 36 * time.Second
	if k.Thorough() {
		wait = 150 * time.Second
	}
	for t0 := time.Now(); time.Since(t0) < wait; {
		w.burst(1, 3, 3, nil)
		w.settle("besides a controller of an unknown kind", nil, nil)
		select {
		case err := <-o.done:
			k.Fail("operator stopped: %v", err)
		case <-time.After(500 * time.Millisecond):
		}
	}
	st := c18status(k, o.op, 1)
	if len(st["c0"].LastErrors) > 0 {
		k.Fail("healthy controller reports %q", st["c0"].LastErrors)
	}
	if len(st["c1"].LastErrors) == 0 {
		k.Fail("the controller of an unknown kind is ready")
	}
	k.Eval(1)
}
