package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
)

// C16: views of running operators converge to the result of their pipelines.

func init() {
	checks["C16"] = func(c *Ctx) {
		c.Rule("evaluations = quiescent points at which every running controller's target view was compared with the result that an independent from-scratch evaluation obtains from the actual content of its source views")
		c.Rule("distinct_nontrivial = distinct (pipeline, sources) combinations compared with at least one target object")
		c.Assume("target objects that were already there when the operator was started are not the operator's")
		c.Section("views", c.N(300, 8000), 8, func(k *K) { c16views(k, false) })
		c.Section("views, delays injected", c.N(150, 4000), 8, func(k *K) { c16views(k, true) })
		const slots = 4
		c.withNative(slots, func(e *natEnv) {
			free := make(chan int, slots)
			for i := 0; i < slots; i++ {
				free <- i
			}
			c.Section("native resources, failing requests", c.N(40, 600), slots, func(k *K) {
				slot := <-free
				defer func() { free <- slot }()
				c16native(k, e, slot)
			})
		})
	}
}

// genWorld makes operators with random controllers, possibly chained.
func (w *world) genOps(errs int) [][]*ctrlSpec {
	k, r := w.k, w.k.R
	names := []string{"aop", "bop", "cop"}[:1+r.Intn(3)]
	base := []string{"Alpha", "Beta", "Gamma"}[:1+r.Intn(3)]
	avail := map[string]schema.GroupVersionKind{} // kind -> gvk
	for _, b := range base {
		g := opGVK(names[r.Intn(len(names))], b)
		if w.nat != nil && r.Intn(3) > 0 {
			g = natGVK(w.slot, b)
		}
		avail[b] = g
		w.kinds = append(w.kinds, g)
	}
	ops := make([][]*ctrlSpec, len(names))
	var all []*ctrlSpec
	// estimated numbers of objects: joins of derived views grow quickly
	est := map[string]int{}
	size := func(p *pspec) int {
		n := 1
		for _, kd := range p.kinds {
			if est[kd] == 0 {
				est[kd] = 8
			}
			n *= est[kd]
		}
		for _, s := range p.stages {
			if s.op == "@unwind" {
				n *= 2
			}
		}
		return n
	}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		oi := r.Intn(len(names))
		kinds := sortedKeys(avail)
		if len(kinds) > 3 && r.Intn(2) == 0 { // prefer deep chains
			kinds = kinds[len(kinds)-3:]
		}
		p := genPipeOf(r, errs, 2, kinds)
		for (len(p.kinds) > 2 && i > 0) || size(p) > 500 {
			p = genPipeOf(r, errs, 2, kinds)
		}
		c := &ctrlSpec{name: fmt.Sprintf("c%d", i), op: names[oi], p: p}
		for j, kd := range p.kinds {
			p.gvks[j] = avail[kd]
		}
		tk := fmt.Sprintf("T%d", i)
		p.target = opGVK(names[oi], tk)
		if w.nat != nil && r.Intn(3) > 0 {
			p.target = natGVK(w.slot, tk)
			last := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "spec": "$.spec"}
			if r.Intn(2) == 0 {
				last["status"] = m{"n": m{"@concat": l{"n-", "$.metadata.name"}}, "i": "$.spec.i"}
				if tk == "T0" {
					delete(last, "status")
				}
			}
			p.stages = append(p.stages, stage{"@project", last})
		}
		if len(all) > 0 && r.Intn(5) == 0 {
			// share the target kind with another controller
			o := all[r.Intn(len(all))]
			uses := false
			for _, kd := range p.kinds {
				uses = uses || kd == o.p.target.Kind
			}
			if !uses && o.prefix == "" && o.op == c.op {
				ok := true
				for _, x := range all { // nobody may consume it: keep the graph acyclic
					for _, kd := range x.p.kinds {
						ok = ok && kd != o.p.target.Kind
					}
				}
				if ok {
					delete(avail, o.p.target.Kind)
					p.target = o.p.target
					for _, x := range []*ctrlSpec{o, c} {
						x.prefix = x.name + "-"
						x.p.stages = append(x.p.stages, stage{"@project", l{"$.", m{"$.metadata.name": m{"@concat": l{x.prefix, "$.metadata.name"}}}}})
					}
				}
			}
		}
		if c.prefix == "" {
			avail[tk] = p.target
		}
		est[tk] = size(p)
		all = append(all, c)
		ops[oi] = append(ops[oi], c)
	}
	for _, c := range all {
		c.configure(k, opv1a1.Updater)
	}
	return ops
}

func c16views(k *K, delays bool) {
	log := logr.Discard()
	if delays {
		log = jitterLog(k.R.Int63(), uint64(20+k.R.Intn(200)))
	}
	w := newWorld(k, log)
	defer w.close()
	c16run(k, w, func() {}, func() {})
}

func c16native(k *K, e *natEnv, slot int) {
	f := &faults{r: rand.New(rand.NewSource(k.R.Int63()))}
	e.clear(k, slot)
	w := newWorldOn(k, logr.Discard(), e, f.config(e.cfg), slot)
	defer w.close()
	rate := []int64{0, 25, 50}[min(2, k.R.Intn(5))]
	c16run(k, w, func() { f.rate.Store(rate) }, func() { f.rate.Store(0) })
	k.Count("injected_faults", int(f.count.Load()))
}

func c16run(k *K, w *world, faultsOn, faultsOff func()) {
	r := k.R
	errs := 0
	if r.Intn(6) == 0 {
		errs = 4
	}
	ops := w.genOps(errs)
	names := 2 + r.Intn(4)
	for i := range ops {
		if len(ops[i]) > 0 {
			w.ops = append(w.ops, w.create(ops[i][0].op, ops[i]))
		}
	}
	for _, o := range w.ops {
		for _, c := range o.ctrls {
			k.Log("controller %s/%s %s", c.op, c.name, c.p)
		}
	}
	old := map[string]string{} // objects left by a former incarnation
	extra := func(ky string, got map[string]any) bool { return old[ky] == canon(got) }
	writers := 1 + r.Intn(3)
	faultsOn()
	// changes before, during and after the start
	if r.Intn(3) > 0 {
		w.burst(writers, 1+r.Intn(12), names, nil)
	}
	startAll := func() {
		for _, i := range r.Perm(len(w.ops)) {
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
			w.start(w.ops[i])
		}
	}
	if r.Intn(2) == 0 {
		w.burst(writers, 1+r.Intn(15), names, startAll)
	} else {
		startAll()
	}
	point := func(what string) {
		faultsOff()
		defer faultsOn()
		w.settle(what, extra, nil)
		k.Eval(1)
		for _, o := range w.ops {
			for _, c := range o.ctrls {
				if o.cancel != nil && len(w.list(c.p.target)) > 0 {
					k.Nontrivial("%s %v", c.p, w.list(c.p.gvks[0]))
				}
			}
		}
	}
	point("after the start")
	for round := 1 + r.Intn(3); round > 0; round-- {
		var during func()
		if len(w.ops) > 1 && r.Intn(4) == 0 || r.Intn(8) == 0 {
			// stop an operator, possibly start it again: the others are not affected
			o := w.ops[r.Intn(len(w.ops))]
			again := r.Intn(2) == 0
			during = func() {
				w.stop(o)
				k.Count("operators_stopped", 1)
				if again {
					for _, c := range o.ctrls {
						for ky, x := range w.list(c.p.target) {
							old[c.p.target.String()+"|"+ky] = canon(x)
						}
					}
					n := w.create(o.name, o.ctrls)
					o.op, o.errs = n.op, n.errs
					w.start(o)
					k.Count("operators_restarted", 1)
				}
			}
		}
		w.burst(writers, 1+r.Intn(20), names, during)
		k.Log("-- quiescent point")
		point("after a burst of changes")
	}
	if r.Intn(3) == 0 {
		// remove everything
		for _, g := range w.kinds {
			for ky := range w.list(g) {
				o := vobjKey(g, ky)
				if err := w.client(g).Delete(w.ctx, o); err != nil {
					k.Fail("delete %s: %v", ky, err)
				}
			}
		}
		k.Log("-- all removed")
		point("after removing all objects")
	}
	for _, o := range w.ops {
		k.Count("controller_errors", int(o.nerr.Load()))
	}
}

var _ = rand.Int
