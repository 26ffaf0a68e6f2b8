package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

// phist drives one pipeline through a history of source events and monitors it.
type phist struct {
	k      *K
	p      *pspec
	ev     pipeline.Evaluator
	src    map[string]map[string]object.Object // kind -> key -> accepted object
	target map[string]map[string]any           // accumulated emitted changes
	// last expected result
	expect  map[string][]map[string]any
	events  int
	errors  int
	emitted int
	multi   bool // some key has had several producers
}

func newHist(k *K, p *pspec) *phist {
	h := &phist{k: k, p: p, src: map[string]map[string]object.Object{}, target: map[string]map[string]any{}, expect: map[string][]map[string]any{}}
	for _, kd := range p.kinds {
		h.src[kd] = map[string]object.Object{}
	}
	k.Log("%s", p)
	var err error
	k.Protect("building the pipeline", func() { h.ev, err = p.build() })
	k.Check(err == nil, "valid pipeline rejected: %v: %s", err, p)
	return h
}

func okey(o object.Object) string { return client.ObjectKeyFromObject(o).String() }

// sources returns the accepted source documents, optionally with one change applied.
func (h *phist) sources(kind, key string, obj object.Object, change bool) map[string][]map[string]any {
	out := map[string][]map[string]any{}
	for _, kd := range h.p.kinds {
		for _, ky := range sortedKeys(h.src[kd]) {
			if change && kd == kind && ky == key {
				continue
			}
			out[kd] = append(out[kd], h.src[kd][ky].UnstructuredContent())
		}
		if change && kd == kind && obj != nil {
			c := copyMap(obj.UnstructuredContent())
			if strings.HasSuffix(obj.GroupVersionKind().Group, ".view.dcontroller.io") {
				if md, ok := isObj(c["metadata"]); ok {
					delete(md, "uid")
				}
			}
			out[kd] = append(out[kd], c)
		}
	}
	return out
}

func (h *phist) model(src map[string][]map[string]any) (map[string][]map[string]any, error) {
	return refPipe(h.p.stages, h.p.kinds, src, h.p.target.GroupVersion().String(), h.p.target.Kind)
}

func (h *phist) norm(v any) string {
	if h.p.dyn {
		if h.multi { // which document remains is not defined
			return ""
		}
		c := map[string]any{}
		for k, x := range v.(map[string]any) {
			if k != "ts" {
				c[k] = x
			}
		}
		v = c
	}
	if h.p.gather {
		return canon(normLists(v))
	}
	return canon(v)
}

// freshTarget feeds the accepted sources into a new pipeline in random order.
func (h *phist) freshTarget() (map[string]map[string]any, error) {
	ev, err := h.p.build()
	if err != nil {
		return nil, err
	}
	var objs []object.Object
	for _, kd := range h.p.kinds {
		for _, ky := range sortedKeys(h.src[kd]) {
			objs = append(objs, h.src[kd][ky])
		}
	}
	h.k.R.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	t := map[string]map[string]any{}
	for _, o := range objs {
		ds, err := ev.Evaluate(object.Delta{Type: object.Added, Object: object.DeepCopy(o)})
		if err != nil {
			return nil, err
		}
		applyDeltas(t, ds)
	}
	return t, nil
}

func applyDeltas(t map[string]map[string]any, ds []object.Delta) {
	for _, d := range ds {
		if d.Type == object.Deleted {
			delete(t, okey(d.Object))
		} else {
			t[okey(d.Object)] = copyMap(d.Object.UnstructuredContent())
		}
	}
}

// diffTargets compares a target collection with the expected candidates by key.
func (h *phist) diffTargets(got map[string]map[string]any, want map[string][]map[string]any) string {
	for _, ky := range sortedKeys(want) {
		g, ok := got[ky]
		if !ok {
			return fmt.Sprintf("object %s is missing, want %s", ky, canon(want[ky][0]))
		}
		found := false
		for _, w := range want[ky] {
			if h.norm(g) == h.norm(w) {
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("object %s is %s, want %s", ky, canon(g), canon(want[ky][0]))
		}
	}
	for _, ky := range sortedKeys(got) {
		if _, ok := want[ky]; !ok {
			return fmt.Sprintf("object %s is left behind: %s", ky, canon(got[ky]))
		}
	}
	return ""
}

func single(t map[string]map[string]any) map[string][]map[string]any {
	o := map[string][]map[string]any{}
	for k, v := range t {
		o[k] = []map[string]any{v}
	}
	return o
}

type pevent struct {
	kind, key string
	typ       object.DeltaType
	obj       object.Object
	redeliver bool
	unknown   bool
}

func (h *phist) randEvent(delBias int) pevent {
	r := h.k.R
	i := r.Intn(len(h.p.kinds))
	kd, gvk := h.p.kinds[i], h.p.gvks[i]
	ns := []string{"default", "default", "other"}[r.Intn(3)]
	name := []string{"a", "b", "c", "d"}[r.Intn(4)]
	o := srcDoc(r, gvk, ns, name)
	if r.Intn(30) == 0 { // cluster-scoped
		o.SetNamespace("")
	}
	key := okey(o)
	old, exists := h.src[kd][key]
	e := pevent{kind: kd, key: key, obj: o}
	if exists {
		x := r.Intn(100)
		switch {
		case x < delBias:
			e.typ = object.Deleted
			if r.Intn(2) == 0 { // usually the last known version
				e.obj = object.DeepCopy(old)
			}
		case x < delBias+10:
			e.obj = object.DeepCopy(old)
			e.redeliver = true
			e.typ = []object.DeltaType{object.Added, object.Updated, object.Upserted}[r.Intn(3)]
		case x < delBias+40: // small change
			e.obj = object.DeepCopy(old)
			sp := e.obj.UnstructuredContent()["spec"].(map[string]any)
			n := genSpec(r)
			ks := sortedKeys(n)
			f := ks[r.Intn(len(ks))]
			sp[f] = n[f]
			e.typ = []object.DeltaType{object.Updated, object.Upserted}[r.Intn(2)]
		default:
			e.typ = []object.DeltaType{object.Added, object.Updated, object.Updated, object.Upserted, object.Replaced}[r.Intn(5)]
		}
	} else {
		e.typ = []object.DeltaType{object.Added, object.Added, object.Added, object.Upserted, object.Updated}[r.Intn(5)]
		if r.Intn(25) == 0 {
			e.typ = object.Deleted
			e.unknown = true
		}
	}
	if r.Intn(5) == 0 && e.typ != object.Deleted && !e.redeliver {
		object.WithUID(e.obj)
	}
	return e
}

// step delivers an event. It returns the emitted changes and whether the event failed.
func (h *phist) step(e pevent) ([]object.Delta, bool) {
	k := h.k
	h.events++
	k.Log("event %d: %s %s %s: %s", h.events, e.typ, e.kind, e.key, canon(e.obj.UnstructuredContent()["spec"]))
	var ds []object.Delta
	var err error
	in := object.DeepCopy(e.obj)
	k.Protect("evaluating an event", func() { ds, err = h.ev.Evaluate(object.Delta{Type: e.typ, Object: in}) })
	h.emitted += len(ds)
	for _, d := range ds {
		k.Log("   -> %s %s: %s", d.Type, okey(d.Object), canon(d.Object.UnstructuredContent()))
	}
	if err != nil {
		k.Log("   -> error: %v", err)
		h.errors++
	}
	return ds, err != nil
}

// accept records an event in the model of the sources.
func (h *phist) accept(e pevent) {
	if e.typ == object.Deleted {
		delete(h.src[e.kind], e.key)
	} else {
		c := object.DeepCopy(e.obj)
		object.RemoveUID(c)
		h.src[e.kind][e.key] = c
	}
}

type hopts struct {
	prop    string // whose oracles decide
	events  int
	errs    int
	stages  int
	delBias int
	sync    bool
	tamper  bool
}

// run drives a random history and judges it by the oracles of the given property.
func (h *phist) run(o hopts) {
	k := h.k
	for i := 0; i < 3*len(h.p.kinds); i++ { // populate
		h.one(h.randEvent(0), o)
	}
	for i := 0; i < o.events; i++ {
		bias := o.delBias
		if i > o.events*2/3 {
			bias += 25
		}
		h.one(h.randEvent(bias), o)
		if o.sync && k.R.Intn(4) == 0 {
			h.sync(o)
		}
	}
	// fresh evaluation of the final state in another order
	if o.prop == "C01" || o.prop == "C02" || o.prop == "C04" {
		h.checkFresh("at the end")
	}
	// drain
	if o.prop == "C01" || o.prop == "C04" {
		type kk struct{ kd, ky string }
		var all []kk
		for _, kd := range h.p.kinds {
			for _, ky := range sortedKeys(h.src[kd]) {
				all = append(all, kk{kd, ky})
			}
		}
		k.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, x := range all {
			h.one(pevent{kind: x.kd, key: x.ky, typ: object.Deleted, obj: object.DeepCopy(h.src[x.kd][x.ky])}, o)
		}
		left := 0
		for _, kd := range h.p.kinds {
			left += len(h.src[kd])
		}
		if left == 0 {
			k.Check(len(h.target) == 0, "all sources are gone but target objects are left: %s\n%s", canon(h.target), h.p)
			k.Count("drained", 1)
		}
	}
	k.Count("events", h.events)
	k.Count("failed_events", h.errors)
	if h.emitted > 0 {
		k.Nontrivial("%s|%d", stagesJSON(h.p.stages), h.events)
	}
	k.Count("emitted_changes", h.emitted)
	if h.emitted == 0 && os.Getenv("DBG") != "" {
		fmt.Println("EMPTY", h.errors, h.events, h.p)
	}
	for _, s := range h.p.stages {
		k.Count("stage"+s.op, 1)
	}
	k.Max("max_stages", len(h.p.stages))
	k.Count(fmt.Sprintf("pipelines_with_%d_sources", len(h.p.kinds)), 1)
	if k.Index < 2 {
		k.Sample(map[string]any{"pipeline": h.p.String(), "events": h.events, "final_objects": len(h.target), "failed": h.errors})
	}
}

func (h *phist) checkFresh(when string) {
	k := h.k
	fresh, err := h.freshTarget()
	if err != nil {
		k.Count("fresh_skipped", 1)
		return
	}
	k.Count("fresh_compared", 1)
	if d := h.diffTargets(h.target, single(fresh)); d != "" {
		k.Fail("target differs from a fresh pipeline fed with the current sources (%s, after event %d): %s\n%s", when, h.events, d, h.p)
	}
}

func (h *phist) one(e pevent, o hopts) {
	k := h.k
	want, werr := h.model(h.sources(e.kind, e.key, e.obj, true))
	if e.typ == object.Deleted {
		want, werr = h.model(h.sources(e.kind, e.key, nil, true))
	}
	if werr == errUnspec { // numbers that cannot be represented
		h.step(e)
		panic(abortCase{})
	}
	before := map[string]map[string]any{}
	for a, b := range h.target {
		before[a] = b
	}
	ds, failed := h.step(e)
	judgesState := o.prop == "C01" || o.prop == "C04"
	if e.unknown {
		if o.prop == "C04" {
			k.Check(len(ds) == 0, "deleting an unknown object produced %d changes\n%s", len(ds), h.p)
			k.Count("unknown_deletes", 1)
		}
		applyDeltas(h.target, ds)
		return
	}
	if failed {
		if h.p.safe && werr == nil && judgesState {
			k.Fail("event %d (%s %s %s) failed but a from-scratch evaluation succeeds\n%s", h.events, e.typ, e.kind, e.key, h.p)
		}
		if o.prop == "C04" && h.k.R.Intn(2) == 0 {
			// a failing event may be retried any number of times
			for n := h.k.R.Intn(3); n > 0; n-- {
				ds, f := h.step(e)
				k.Check(f && len(ds) == 0, "a failing event did not fail when repeated on the same state\n%s", h.p)
			}
		}
		return
	}
	if h.p.safe && werr != nil && judgesState {
		k.Fail("event %d (%s %s %s) succeeded but a from-scratch evaluation fails: %v\n%s", h.events, e.typ, e.kind, e.key, werr, h.p)
	}
	h.accept(e)
	applyDeltas(h.target, ds)
	prev := h.expect
	if h.p.safe && werr == nil {
		h.expect = want
		for _, c := range want {
			if len(c) > 1 {
				h.multi = true
			}
		}
		if judgesState {
			if d := h.diffTargets(h.target, want); d != "" {
				k.Fail("after event %d (%s %s %s): %s\n%s", h.events, e.typ, e.kind, e.key, d, h.p)
			}
			k.Count("states_compared_with_model", 1)
		}
		if o.prop == "C02" && h.p.safe {
			if d := h.diffTargets(h.target, want); d != "" {
				k.Fail("incremental evaluation is wrong after a sync, event %d (%s %s %s): %s\n%s", h.events, e.typ, e.kind, e.key, d, h.p)
			}
		}
	}
	if judgesState && (!h.p.safe || k.R.Intn(8) == 0) {
		h.checkFresh("during the history")
	}
	if o.prop == "C04" && e.redeliver {
		h.unchanged(before, "a repeated "+string(e.typ))
	}
	if o.prop == "C03" {
		h.minimal(e, ds, before, prev)
	}
}

func (h *phist) unchanged(before map[string]map[string]any, what string) {
	h.k.Count("redeliveries", 1)
	h.k.Check(canon(before) == canon(h.target), "%s changed the target: %s -> %s\n%s", what, canon(before), canon(h.target), h.p)
}

// minimal judges one emitted batch.
func (h *phist) minimal(e pevent, ds []object.Delta, before map[string]map[string]any, prev map[string][]map[string]any) {
	k := h.k
	seen := map[string]bool{}
	ups := false
	k.Count("batches", 1)
	k.Max("max_batch", len(ds))
	for _, d := range ds {
		k.Check(d.Object != nil, "nil object in a batch")
		ky := okey(d.Object)
		k.Check(!seen[ky], "object %s occurs several times in one batch\n%s", ky, h.p)
		seen[ky] = true
		k.Check(d.Object.GroupVersionKind() == h.p.target, "object %s has GVK %s, want %s\n%s", ky, d.Object.GroupVersionKind(), h.p.target, h.p)
		k.Check(d.Object.GetName() != "", "object without a name in a batch\n%s", h.p)
		switch d.Type {
		case object.Deleted:
			k.Check(!ups, "deletion of %s after an upsert in the batch\n%s", ky, h.p)
			_, ok := before[ky]
			k.Check(ok, "deletion of %s which is not in the target\n%s", ky, h.p)
			k.Count("deletes", 1)
		case object.Upserted:
			ups = true
			k.Count("upserts", 1)
			if old, ok := before[ky]; ok && canon(old) == canon(d.Object.UnstructuredContent()) {
				// allowed only if the event added another producer of the object
				if h.p.safe && len(h.expect[ky]) <= 1 && len(prev[ky]) <= 1 {
					k.Fail("upsert of %s does not change it: %s\n%s", ky, canon(old), h.p)
				}
				k.Count("unchanged_upserts_of_shared_objects", 1)
			}
		default:
			k.Fail("unexpected change type %q\n%s", d.Type, h.p)
		}
	}
	if h.p.safe && h.sameResult(prev, h.expect) && e.typ != object.Deleted {
		shared := false
		for _, c := range h.expect {
			shared = shared || len(c) > 1
		}
		if !shared && !h.p.gather {
			k.Check(len(ds) == 0, "event did not change the result but %d changes were emitted\n%s", len(ds), h.p)
			k.Count("no_change_events", 1)
		}
	}
}

func (h *phist) sameResult(a, b map[string][]map[string]any) bool {
	f := func(x map[string][]map[string]any) string {
		var s []string
		for ky, c := range x {
			for _, d := range c {
				s = append(s, ky+canon(d))
			}
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	return f(a) == f(b)
}

// sync runs a state-of-the-world synchronisation, possibly after tampering with the recorded target.
func (h *phist) sync(o hopts) {
	k, r := h.k, h.k.R
	want := h.expect
	if !h.p.safe {
		f, err := h.freshTarget()
		if err != nil {
			k.Count("fresh_skipped", 1)
			return
		}
		want = single(f)
	}
	tc := h.ev.GetTargetCache()
	rec := map[string]map[string]any{}
	for _, ob := range tc.List() {
		rec[okey(ob)] = copyMap(ob.UnstructuredContent())
	}
	k.Check(canon(rec) == canon(h.target), "the recorded target differs from the emitted changes: %s, emitted %s\n%s", canon(rec), canon(h.target), h.p)
	if o.tamper {
		ks := sortedKeys(rec)
		for n := r.Intn(4); n > 0; n-- {
			switch x := r.Intn(4); {
			case x == 0 && len(ks) > 0: // lost
				ky := ks[r.Intn(len(ks))]
				if rec[ky] == nil {
					continue
				}
				ob := object.New()
				object.SetContent(ob, rec[ky])
				ob.SetUnstructuredContent(copyMap(rec[ky]))
				k.Check(tc.Delete(ob) == nil, "cannot delete from the target cache")
				delete(rec, ky)
				k.Log("tamper: lost %s", ky)
				k.Count("tampered_lost", 1)
			case x <= 2 && len(ks) > 0: // diverged
				ky := ks[r.Intn(len(ks))]
				if rec[ky] == nil {
					continue
				}
				c := copyMap(rec[ky])
				switch r.Intn(3) {
				case 0:
					c["spec"] = map[string]any{"i": int64(r.Intn(3)), "tampered": true}
				case 1:
					c["extra"] = "x"
				default:
					delete(c, "spec")
				}
				ob := object.New()
				ob.SetUnstructuredContent(copyMap(c))
				k.Check(tc.Update(ob) == nil, "cannot update the target cache")
				rec[ky] = c
				k.Log("tamper: diverged %s", ky)
				k.Count("tampered_diverged", 1)
			default: // stale
				ob := object.New()
				ob.SetUnstructuredContent(map[string]any{"spec": map[string]any{"stale": int64(r.Intn(3))}})
				ob.SetGroupVersionKind(h.p.target)
				ob.SetName("stale" + fmt.Sprint(r.Intn(2)))
				ob.SetNamespace([]string{"default", ""}[r.Intn(2)])
				k.Check(tc.Add(ob) == nil, "cannot add to the target cache")
				rec[okey(ob)] = copyMap(ob.UnstructuredContent())
				k.Log("tamper: stale %s", okey(ob))
				k.Count("tampered_stale", 1)
			}
		}
	}
	var ds []object.Delta
	var err error
	k.Protect("sync", func() { ds, err = h.ev.Sync() })
	k.Log("sync -> %d changes, %v", len(ds), err)
	for _, d := range ds {
		k.Log("   -> %s %s: %s", d.Type, okey(d.Object), canon(d.Object.UnstructuredContent()))
	}
	k.Check(err == nil, "sync failed: %v\n%s", err, h.p)
	after := map[string]map[string]any{}
	for a, b := range rec {
		after[a] = b
	}
	applyDeltas(after, ds)
	if d := h.diffTargets(after, want); d != "" {
		k.Fail("the changes emitted by a sync do not turn the recorded target into the result: %s\n%s", d, h.p)
	}
	seen := map[string]bool{}
	ups := false
	for _, d := range ds {
		ky := okey(d.Object)
		k.Check(!seen[ky], "object %s occurs several times in a sync\n%s", ky, h.p)
		seen[ky] = true
		k.Check(d.Object.GroupVersionKind() == h.p.target, "sync: object %s has GVK %s, want %s\n%s", ky, d.Object.GroupVersionKind(), h.p.target, h.p)
		if d.Type == object.Deleted {
			k.Check(!ups, "sync: deletion of %s after an upsert", ky)
			_, ok := rec[ky]
			k.Check(ok, "sync deletes %s which is not recorded\n%s", ky, h.p)
			_, ok = want[ky]
			k.Check(!ok, "sync deletes %s which is part of the result\n%s", ky, h.p)
		} else {
			k.Check(d.Type == object.Upserted, "sync: unexpected change type %s", d.Type)
			ups = true
			old, ok := rec[ky]
			if ok && canon(old) == canon(d.Object.UnstructuredContent()) {
				k.Fail("sync re-emits the untouched object %s: %s\n%s", ky, canon(old), h.p)
			}
		}
	}
	k.Count("syncs", 1)
	k.Count("sync_changes", len(ds))
	h.target = after
	rec2 := map[string]map[string]any{}
	for _, ob := range tc.List() {
		rec2[okey(ob)] = copyMap(ob.UnstructuredContent())
	}
	k.Check(canon(rec2) == canon(after), "the recorded target after a sync differs from the emitted changes: %s, want %s\n%s", canon(rec2), canon(after), h.p)
	ds, err = h.ev.Sync()
	k.Check(err == nil && len(ds) == 0, "a second sync emitted %d changes (err=%v)\n%s", len(ds), err, h.p)
}

func pipeRule(c *Ctx, what string) {
	c.Rule("Random pipelines (0-%d stages of @select/@project/@unwind/@gather after an optional @join of 1-4 sources, view or native, random typed expressions) are driven through random event histories (adds, updates, upserts, small changes, redeliveries, deletes with current or stale content; few object keys so that histories revisit them). %s Non-trivial: histories that emitted changes, distinct by pipeline.", 6, what)
	c.Assume("documents are compared as JSON (3 and 3.0 are the same); lists in pipelines with @gather are compared as multisets; when several source documents produce the same target key any of them may be chosen, but the choice must not depend on the history")
}

func checkC01(c *Ctx) {
	pipeRule(c, "After every event the accumulated emitted changes must equal an independent reference evaluation of the current sources (any of the candidate documents on key collisions), and periodically a fresh pipeline fed with them in random order.")
	c.Section("noerr", c.N(500, 30000), 8, func(k *K) {
		newHist(k, genPipe(k.R, 0, 5)).run(hopts{prop: "C01", events: 10 + k.R.Intn(25), delBias: 15})
	})
	c.Section("errs", c.N(150, 8000), 8, func(k *K) {
		newHist(k, genPipe(k.R, 2, 4)).run(hopts{prop: "C01", events: 10 + k.R.Intn(20), delBias: 15})
	})
	c.Section("gathers", c.N(24, 200), 8, func(k *K) {
		p := &pspec{kinds: []string{"Alpha"}, gvks: []schema.GroupVersionKind{viewGVK("Alpha")}, target: viewGVK("Target"), gather: true, safe: true}
		for i := 0; i < k.Index; i++ {
			switch k.R.Intn(3) {
			case 0:
				p.stages = append(p.stages, stage{"@unwind", "$.spec.li"}, stage{"@project", m{"metadata": "$.metadata", "spec": m{"t": "$.spec.t", "s": "$.spec.s", "li": l{"$.spec.li"}}}})
			case 1:
				p.stages = append(p.stages, stage{"@select", m{"@exists": "$.metadata.name"}})
			default:
				p.stages = append(p.stages, stage{"@project", m{"metadata": "$.metadata", "gk": "$.spec.t", "gv": "$.spec.li"}}, stage{"@gather", l{"$.gk", "$.gv"}},
					stage{"@project", m{"metadata": m{"name": m{"@concat": l{"g-", "$.gk"}}, "namespace": "x"}, "spec": m{"t": "$.gk", "li": l{m{"@len": "$.gv"}, int64(1)}}}})
			}
		}
		newHist(k, p).run(hopts{prop: "C01", events: 12, delBias: 15})
	})
	c.Section("dynamic", c.N(150, 8000), 8, func(k *K) {
		p := genPipe(k.R, 0, 4)
		for !p.safe {
			p = genPipe(k.R, 0, 4)
		}
		p.dyn = true
		newHist(k, p).run(hopts{prop: "C01", events: 10 + k.R.Intn(25), delBias: 20})
	})
	c.Section("long", c.N(40, 600), 8, func(k *K) {
		newHist(k, genPipe(k.R, 0, 24)).run(hopts{prop: "C01", events: 12, delBias: 15})
	})
}

func checkC02(c *Ctx) {
	pipeRule(c, "At random points the recorded target is tampered with (objects lost, diverged, added) and Sync is called: its changes must be exactly the difference between the recorded target and the reference result; a second Sync emits nothing; later incremental changes stay right.")
	c.Section("sync", c.N(700, 40000), 8, func(k *K) {
		newHist(k, genPipe(k.R, k.R.Intn(2), 4)).run(hopts{prop: "C02", events: 10 + k.R.Intn(20), delBias: 15, sync: true, tamper: k.R.Intn(4) > 0})
	})
}

func checkC03(c *Ctx) {
	pipeRule(c, "Every emitted batch is judged against the target as accumulated so far: unique keys, deletions first, deletions only of existing objects, upserts only with changed content (unless several documents produce the object), target GVK; no changes if the reference result did not change.")
	c.Section("batches", c.N(1200, 60000), 8, func(k *K) {
		newHist(k, genPipe(k.R, k.R.Intn(2), 5)).run(hopts{prop: "C03", events: 10 + k.R.Intn(25), delBias: 20})
	})
}

func checkC04(c *Ctx) {
	pipeRule(c, "Expressions are ill-typed on part of the documents, so many events fail; failing events are retried, events redelivered, unknown objects deleted. After each successful event the target must equal the reference result over the accepted sources; an event fails exactly when the reference evaluation over the changed sources fails.")
	c.Section("failing", c.N(500, 60000), 8, func(k *K) {
		p := genPipe(k.R, 1+k.R.Intn(4), 4)
		newHist(k, p).run(hopts{prop: "C04", events: 12 + k.R.Intn(25), delBias: 20})
	})
	c.Section("fragile", c.N(250, 20000), 8, func(k *K) {
		p := genPipe(k.R, 0, 3)
		// a stage that fails on some of the documents
		frag := []stage{
			{"@select", m{"@lt": l{"$.spec.i", int64(3)}}},
			{"@select", m{"@eq": l{"$.spec.s", "a"}}},
			{"@select", "$.spec.b"},
			{"@project", m{"metadata": m{"name": "$.spec.s", "namespace": "$.metadata.namespace"}, "spec": "$.spec"}},
			{"@project", m{"metadata": m{"name": "$.metadata.name", "namespace": "$.spec.deep.er.s"}, "spec": "$.spec"}},
			{"@unwind", "$.spec.deep.er"},
			{"@project", l{"$.", "$.spec.deep"}},
		}
		at := len(p.stages)
		p.stages = append(p.stages[:at:at], frag[k.R.Intn(len(frag))])
		newHist(k, p).run(hopts{prop: "C04", events: 12 + k.R.Intn(25), delBias: 20})
	})
}
