package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/dbsp"
	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/object"
)

func init() { checks["C09"] = checkC09 }

func checkC09(c *Ctx) {
	c.Rule("alias monitor: everything handed to or received from the code under test is snapshotted, then scribbled over by the harness; the snapshot of every other party (inputs, expression text, repeated evaluation, twin pipeline that was never scribbled at, store model, other handlers) must stay intact. Additionally a pointer-identity scan looks for maps and slices reachable from two parties")
	c.Assume("objects exposed through an informer's raw indexer are read-only by client-go convention and excluded")
	c.Section("expr", c.N(40000, 800000), 8, c09expr)
	c.Section("set", c.N(8000, 200000), 8, c09set)
	c.Section("pipe", c.N(700, 50000), 8, c09pipe)
	c.Section("zset", c.N(3000, 60000), 8, c09zset)
	c.Section("store", c.N(600, 20000), 8, c09store)
	c.Section("object", c.N(4000, 60000), 8, c09object)
}

// refsOf collects the identities of all non-empty maps and slices reachable from a value.
func refsOf(v any, out map[uintptr]string, path string) {
	switch x := v.(type) {
	case map[string]any:
		if x != nil {
			out[reflect.ValueOf(x).Pointer()] = path
		}
		for _, k := range sortedKeys(x) {
			refsOf(x[k], out, path+"."+k)
		}
	case []any:
		if len(x) > 0 {
			out[reflect.ValueOf(x).Pointer()] = path
		}
		for i, y := range x {
			refsOf(y, out, fmt.Sprintf("%s[%d]", path, i))
		}
	case map[string]string:
		if x != nil {
			out[reflect.ValueOf(x).Pointer()] = path
		}
	case []map[string]any:
		for i, y := range x {
			refsOf(y, out, fmt.Sprintf("%s[%d]", path, i))
		}
	}
}

// sharedRef reports a map or slice reachable from both values.
func sharedRef(a, b any) string {
	ra, rb := map[uintptr]string{}, map[uintptr]string{}
	refsOf(a, ra, "$")
	refsOf(b, rb, "$")
	for p, x := range ra {
		if y, ok := rb[p]; ok {
			return x + " is " + y
		}
	}
	return ""
}

func c09expr(k *K) {
	r := k.R
	g := &egen{r: r}
	var spec any
	if r.Intn(3) == 0 {
		spec = g.gen(tAny, 3)
	} else {
		spec = g.gen([]typ{tObj, tListObj, tListInt, tListStr, tObj, tListObj}[r.Intn(6)], 3)
	}
	b, err := json.Marshal(spec)
	if err != nil {
		return
	}
	var e expression.Expression
	if err := json.Unmarshal(b, &e); err != nil {
		return
	}
	k.Log("%s", b)
	if !plainText(string(b)) {
		return
	}
	obj := srcDoc(r, viewGVK("Alpha"), "default", "a").UnstructuredContent()
	var subj any
	if r.Intn(2) == 0 {
		subj = []any{m{"name": "a", "n": int64(2), "l": l{int64(1), m{"x": "y"}}}, l{int64(1), m{"x": l{"z"}}}, obj["spec"]}[r.Intn(3)]
	}
	o0, s0, t0 := canon(obj), canon(subj), e.String()
	ctx := expression.EvalCtx{Object: obj, Subject: subj, Log: logr.Discard()}
	v, err := e.Evaluate(ctx)
	k.Check(canon(obj) == o0, "evaluating %s modified the object from %s to %s", b, o0, canon(obj))
	k.Check(canon(subj) == s0, "evaluating %s modified the subject from %s to %s", b, s0, canon(subj))
	k.Check(e.String() == t0, "evaluating modified the expression from %s to %s", t0, e.String())
	if err != nil {
		k.Count("errors", 1)
		return
	}
	v0 := canon(v)
	if sh := sharedRef(v, obj); sh != "" {
		k.Fail("the result of %s shares data with the object: %s", b, sh)
	}
	if sh := sharedRef(v, subj); sh != "" {
		k.Fail("the result of %s shares data with the subject: %s", b, sh)
	}
	v2, err := e.Evaluate(ctx)
	k.Check(err == nil, "second evaluation of %s fails: %v", b, err)
	if sh := sharedRef(v, v2); sh != "" {
		k.Fail("two results of %s share data (a literal?): %s", b, sh)
	}
	scribble(v)
	k.Check(canon(obj) == o0, "modifying the result of %s modified the object from %s to %s", b, o0, canon(obj))
	k.Check(canon(subj) == s0, "modifying the result of %s modified the subject from %s to %s", b, s0, canon(subj))
	k.Check(e.String() == t0, "modifying the result modified the expression from %s to %s", t0, e.String())
	k.Check(canon(v2) == v0, "modifying the result of %s modified another result from %s to %s", b, v0, canon(v2))
	v3, err := e.Evaluate(ctx)
	k.Check(err == nil && canon(v3) == v0, "after modifying a result %s evaluates to %s instead of %s (%v)", b, canon(v3), v0, err)
	switch v0[0] {
	case '{', '[':
		k.Nontrivial("e %s", v0)
		k.Count("composite results", 1)
	}
}

func c09set(k *K) {
	r := k.R
	g := &egen{r: r}
	doc := srcDoc(r, viewGVK("Alpha"), "default", "a").UnstructuredContent()
	val := genSpec(r)["lo"]
	if r.Intn(2) == 0 {
		val = genSpec(r)
	}
	val0 := canon(val)
	key := g.pick("$.spec.new", "$.spec.i", "$.a.b.c", "$.spec.lo[0]", "$.spec.t.x", "$.spec").(string)
	k.Log("set %s to %s in %s", key, val0, canon(doc))
	if err := expression.SetJSONPathRaw(key, val, doc); err != nil {
		k.Count("errors", 1)
		return
	}
	k.Check(canon(val) == val0, "setting %s modified the value from %s to %s", key, val0, canon(val))
	d0 := canon(doc)
	got, err := expression.GetJSONPathRaw(key, doc)
	k.Check(err == nil, "cannot read back %s: %v", key, err)
	got0 := canon(got)
	k.Check(got0 == val0, "read back %s from %s instead of %s", got0, key, val0)
	k.Check(canon(doc) == d0, "reading %s modified the document from %s to %s", key, d0, canon(doc))
	k.Nontrivial("set %s %s", key, val0)
}

func c09pipe(k *K) {
	r := k.R
	p := genPipe(r, []int{0, 3}[r.Intn(2)], 4)
	h := newHist(k, p)
	if !plainText(stagesJSON(p.stages)) {
		return
	}
	twin, err := p.build()
	k.Check(err == nil, "cannot build: %v", err)
	tCfg, _ := p.config()
	_ = tCfg
	type hold struct {
		o object.Object
		s string
	}
	var outs []hold
	compared := 0
	for i, n := 0, 10+r.Intn(20); i < n; i++ {
		if r.Intn(8) == 0 {
			d1, e1 := h.ev.Sync()
			d2, e2 := twin.Sync()
			k.Check((e1 == nil) == (e2 == nil), "Sync fails after scribbling: %v, without: %v", e1, e2)
			s1, s2 := deltaSet(d1), deltaSet(d2)
			k.Check(s1 == s2, "after modifying received and passed objects Sync emits\n%s\ninstead of\n%s", s1, s2)
			for _, d := range d1 {
				scribble(d.Object.UnstructuredContent())
			}
			continue
		}
		e := h.randEvent(25)
		in := object.DeepCopy(e.obj)
		in0 := canon(in.UnstructuredContent())
		k.Log("%s %s %s %s", e.typ, e.kind, e.key, in0)
		d1, e1 := h.ev.Evaluate(object.Delta{Type: e.typ, Object: in})
		k.Check(canon(in.UnstructuredContent()) == in0, "evaluating the pipeline modified its input from %s to %s", in0, canon(in.UnstructuredContent()))
		d2, e2 := twin.Evaluate(object.Delta{Type: e.typ, Object: object.DeepCopy(e.obj)})
		k.Check((e1 == nil) == (e2 == nil), "the event fails after scribbling: %v, without: %v", e1, e2)
		s1, s2 := deltaSet(d1), deltaSet(d2)
		k.Check(s1 == s2, "after modifying received and passed objects the pipeline emits\n%s\ninstead of\n%s", s1, s2)
		compared += len(d1)
		for i, d := range d1 {
			if sh := sharedRef(d.Object.UnstructuredContent(), in.UnstructuredContent()); sh != "" {
				k.Fail("an emitted object shares data with the input: %s", sh)
			}
			for j := 0; j < i; j++ {
				if sh := sharedRef(d.Object.UnstructuredContent(), d1[j].Object.UnstructuredContent()); sh != "" {
					k.Fail("two emitted objects share data: %s", sh)
				}
			}
		}
		// Either scribble now or keep the object around and see that it never changes.
		for _, d := range d1 {
			if r.Intn(2) == 0 {
				outs = append(outs, hold{d.Object, canon(d.Object.UnstructuredContent())})
			} else {
				scribble(d.Object.UnstructuredContent())
			}
		}
		scribble(in.UnstructuredContent())
		for _, o := range outs {
			k.Check(canon(o.o.UnstructuredContent()) == o.s, "an object emitted earlier was modified from %s to %s", o.s, canon(o.o.UnstructuredContent()))
		}
	}
	for i, gvk := range p.gvks {
		a, b := h.ev.GetSourceCache(gvk), twin.GetSourceCache(gvk)
		if a == nil || b == nil {
			continue
		}
		x, y := storeDump(a), storeDump(b)
		k.Check(x == y, "after modifying passed objects the source cache %d contains %s instead of %s", i, x, y)
	}
	x, y := storeDump(h.ev.GetTargetCache()), storeDump(twin.GetTargetCache())
	k.Check(x == y, "after modifying received objects the target cache contains %s instead of %s", x, y)
	k.Count("deltas compared", compared)
	if compared > 0 {
		k.Nontrivial("p %d", k.Index)
	}
}

func storeDump(s *cache.Store) string {
	var out []string
	for _, o := range s.List() {
		out = append(out, canon(normLists(o.UnstructuredContent())))
		scribble(o.UnstructuredContent())
	}
	sortStrings(out)
	return fmt.Sprint(out)
}

func c09zset(k *K) {
	r := k.R
	z := dbsp.NewDocumentZSet()
	ref := mz{}
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		d := zDoc(r)
		w := r.Intn(5) - 2
		ref.add(copyMap(d), w)
		var err error
		if r.Intn(2) == 0 {
			err = z.AddDocumentMutate(d, w)
		} else {
			before := mzOf(z)
			var z2 *dbsp.DocumentZSet
			z2, err = z.AddDocument(d, w)
			k.Check(sameMz(mzOf(z), before), "AddDocument modified its receiver")
			z = z2
		}
		k.Check(err == nil, "add: %v", err)
	}
	k.Check(sameMz(mzOf(z), ref), "zset %v instead of %v", mzOf(z), ref)
	// deep copies and results of operations are independent
	cp := z.DeepCopy()
	if docs, err := cp.List(); err == nil {
		for _, d := range docs {
			scribble(map[string]any(d.Document))
		}
	}
	k.Check(sameMz(mzOf(z), ref), "modifying a deep copy modified the original zset: %v instead of %v", mzOf(z), ref)
	sum, err := z.Add(z)
	k.Check(err == nil, "add: %v", err)
	dif, err := z.Subtract(z)
	k.Check(err == nil, "subtract: %v", err)
	dis, err := z.Distinct()
	k.Check(err == nil, "distinct: %v", err)
	for _, x := range []*dbsp.DocumentZSet{sum, dif, dis, z.ShallowCopy()} {
		k.Check(x.AddDocumentMutate(m{"extra": int64(1)}, 3) == nil, "add")
		if len(ref) > 0 && r.Intn(2) == 0 {
			k.Check(x.AddDocumentMutate(copyMap(ref[sortedKeys(ref)[0]].doc), 5) == nil, "add")
		}
	}
	k.Check(sameMz(mzOf(z), ref), "adding to a result modified the operand: %v instead of %v", mzOf(z), ref)
	if len(ref) > 0 {
		k.Nontrivial("z %s", ref)
	}
}

// handlerSpy is an informer handler that records copies and scribbles over what it receives.
type handlerSpy struct {
	mu  sync.Mutex
	got []string
}

func (s *handlerSpy) rec(t string, os ...any) {
	x := t
	for _, o := range os {
		if ob, ok := o.(object.Object); ok && ob != nil {
			c := copyMap(ob.UnstructuredContent())
			x += " " + canon(c)
			scribble(ob.UnstructuredContent())
		} else {
			x += fmt.Sprintf(" %T", o)
		}
	}
	s.mu.Lock()
	s.got = append(s.got, x)
	s.mu.Unlock()
}
func (s *handlerSpy) OnAdd(o any, _ bool) { s.rec("add", o) }
func (s *handlerSpy) OnUpdate(a, b any)   { s.rec("upd", a, b) }
func (s *handlerSpy) OnDelete(o any)      { s.rec("del", o) }

func viewObj(kind, ns, name string, content map[string]any) object.Object {
	o := object.NewViewObject(pOp, kind)
	object.SetContent(o, copyMap(content))
	object.SetName(o, ns, name)
	return o
}

// stripUID returns the canonical form of an object without UID.
func stripUID(o map[string]any) string {
	c := copyMap(o)
	if md, ok := c["metadata"].(map[string]any); ok {
		delete(md, "uid")
	}
	return canon(c)
}

func c09store(k *K) {
	r := k.R
	ctx := context.Background()
	vc := cache.NewViewCache(cache.CacheOptions{})
	del := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
	cl := vc.GetClient()
	gvk := viewGVK("Alpha")
	spies := []*handlerSpy{{}, {}, {}}
	inf, err := vc.GetInformerForKind(ctx, gvk)
	k.Check(err == nil, "informer: %v", err)
	dinf, err := del.GetInformerForKind(ctx, gvk)
	k.Check(err == nil, "informer: %v", err)
	for i, s := range spies {
		x := inf
		if i == 2 {
			x = dinf
		}
		_, err := x.AddEventHandler(s)
		k.Check(err == nil, "handler: %v", err)
	}
	list := cache.NewViewObjectList(pOp, "Alpha")
	w, err := vc.Watch(ctx, list)
	k.Check(err == nil, "watch: %v", err)
	defer w.Stop()
	model := map[string]string{} // key -> canonical content
	content := map[string]object.Object{}
	var want []string // events
	n := 5 + r.Intn(25)
	for i := 0; i < n; i++ {
		name := []string{"a", "b", "c"}[r.Intn(3)]
		o := viewObj("Alpha", "default", name, m{"spec": genSpec(r)})
		old, had := content[name]
		same := false
		op := r.Intn(8)
		k.Log("op %d on %s: %s", op, name, canon(o.UnstructuredContent()))
		set := func(x object.Object) {
			x = object.DeepCopy(x)
			object.WithUID(x)
			if had && stripUID(old.UnstructuredContent()) == stripUID(x.UnstructuredContent()) {
				same = true
			} else if had {
				want = append(want, "upd "+canon(old.UnstructuredContent())+" "+canon(x.UnstructuredContent()))
			} else {
				want = append(want, "add "+canon(x.UnstructuredContent()))
			}
			content[name] = x
			model[name] = stripUID(x.UnstructuredContent())
		}
		_ = same
		switch op {
		case 0, 1, 2:
			in := object.DeepCopy(o)
			before := canon(in.UnstructuredContent())
			var err error
			switch {
			case op == 0 && !had:
				err = vc.Add(in)
			case op == 1 && had:
				oldc := object.DeepCopy(old)
				err = vc.Update(oldc, in)
				k.Check(canon(oldc.UnstructuredContent()) == canon(old.UnstructuredContent()), "Update modified the old object")
				scribble(oldc.UnstructuredContent())
			case had:
				err = cl.Update(ctx, in)
			default:
				err = cl.Create(ctx, in)
			}
			k.Check(err == nil, "write: %v", err)
			k.Check(canon(in.UnstructuredContent()) == before || stripUID(in.UnstructuredContent()) == before, "a write modified the object passed in from %s to %s", before, canon(in.UnstructuredContent()))
			set(o)
			scribble(in.UnstructuredContent())
		case 3:
			in := object.DeepCopy(o)
			err := cl.Delete(ctx, in)
			k.Check((err == nil) == had, "delete: %v, existed: %v", err, had)
			scribble(in.UnstructuredContent())
			if had {
				want = append(want, "del "+canon(old.UnstructuredContent()))
				delete(content, name)
				delete(model, name)
			}
		case 4:
			if !had {
				continue
			}
			lit := genSpec(r)["t"]
			patch := m{"spec": m{"patched": lit}}
			b, _ := json.Marshal(patch)
			x := object.DeepCopy(old)
			sp, _ := x.UnstructuredContent()["spec"].(map[string]any)
			prev, _ := sp["patched"].(map[string]any)
			if _, isMap := lit.(map[string]any); isMap && prev != nil {
				continue
			}
			k.Check(cl.Patch(ctx, object.DeepCopy(o), client.RawPatch("application/merge-patch+json", b)) == nil, "patch")
			var norm map[string]any
			_ = json.Unmarshal(b, &norm)
			// read back what the patch made of it; C10 checks the patch semantics
			got := object.NewViewObject(pOp, "Alpha")
			k.Check(vc.Get(ctx, client.ObjectKeyFromObject(o), got) == nil, "get")
			set(got)
			scribble(got.UnstructuredContent())
		case 5:
			if !had {
				continue
			}
			st := genSpec(r)
			in := object.DeepCopy(o)
			in.UnstructuredContent()["status"] = st
			x := object.DeepCopy(old)
			x.UnstructuredContent()["status"] = copyMap(st)
			k.Check(cl.Status().Update(ctx, in) == nil, "status update")
			set(x)
			scribble(in.UnstructuredContent())
		default:
			k.Count("reads", 1)
		}
		// read everything back through the four read paths and scribble over it
		for _, nm := range []string{"a", "b", "c"} {
			for j, g := range []func(o object.Object) error{
				func(o object.Object) error { return vc.Get(ctx, client.ObjectKeyFromObject(o), o) },
				func(o object.Object) error { return del.Get(ctx, client.ObjectKeyFromObject(o), o) },
				func(o object.Object) error { return cl.Get(ctx, client.ObjectKeyFromObject(o), o) },
			} {
				got := viewObj("Alpha", "default", nm, m{})
				err := g(got)
				exp, ok := model[nm]
				k.Check((err == nil) == ok, "get %s via path %d: %v, stored: %v", nm, j, err, ok)
				if ok {
					k.Check(stripUID(got.UnstructuredContent()) == exp, "the store returns %s instead of %s", stripUID(got.UnstructuredContent()), exp)
				}
				scribble(got.UnstructuredContent())
			}
		}
		for j := 0; j < 2; j++ {
			lst := cache.NewViewObjectList(pOp, "Alpha")
			k.Check(cl.List(ctx, lst) == nil, "list")
			k.Check(len(lst.Items) == len(model), "list returns %d items instead of %d", len(lst.Items), len(model))
			for i := range lst.Items {
				x := &lst.Items[i]
				k.Check(stripUID(x.UnstructuredContent()) == model[x.GetName()], "list returns %s instead of %s", stripUID(x.UnstructuredContent()), model[x.GetName()])
				scribble(x.UnstructuredContent())
			}
		}
	}
	for i, s := range spies {
		s.mu.Lock()
		got := fmt.Sprint(s.got)
		s.mu.Unlock()
		if got != fmt.Sprint(want) {
			for j := range want {
				if j >= len(s.got) || s.got[j] != want[j] {
					g := "nothing"
					if j < len(s.got) {
						g = s.got[j]
					}
					k.Fail("handler %d: event %d is %s instead of %s although every handler only modified its own copies", i, j, g, want[j])
				}
			}
			k.Fail("handler %d: received %d events instead of %d: %v", i, len(s.got), len(want), s.got[len(want):])
		}
	}
	// the watcher
	for j, e := range want {
		ev := <-w.ResultChan()
		o := ev.Object.(object.Object)
		var exp string
		switch ev.Type {
		case watch.Added:
			exp = "add " + canon(o.UnstructuredContent())
		case watch.Deleted:
			exp = "del " + canon(o.UnstructuredContent())
		case watch.Modified:
			exp = "upd"
			for i := len(e) - 1; i > 0; i-- {
				if c := " " + canon(o.UnstructuredContent()); len(e) > len(c) && e[len(e)-len(c):] == c {
					exp = e
					break
				}
			}
		}
		k.Check(exp == e, "watch event %d is %s %s instead of %s", j, ev.Type, canon(o.UnstructuredContent()), e)
		scribble(o.UnstructuredContent())
	}
	k.Count("events", len(want)*4)
	if len(want) > 3 {
		k.Nontrivial("s %d", k.Index)
	}
	_ = toolscache.Added
}

func c09object(k *K) {
	r := k.R
	o := srcDoc(r, viewGVK("Alpha"), "default", "a")
	o0 := canon(o.UnstructuredContent())
	cp := object.DeepCopy(o)
	k.Check(canon(cp.UnstructuredContent()) == o0, "DeepCopy returned %s instead of %s", canon(cp.UnstructuredContent()), o0)
	into := object.New()
	object.DeepCopyInto(o, into)
	k.Check(canon(into.UnstructuredContent()) == o0, "DeepCopyInto returned %s instead of %s", canon(into.UnstructuredContent()), o0)
	scribble(cp.UnstructuredContent())
	scribble(into.UnstructuredContent())
	k.Check(canon(o.UnstructuredContent()) == o0, "modifying a copy modified the original from %s to %s", o0, canon(o.UnstructuredContent()))

	// SetContent
	ct := m{"spec": genSpec(r)}
	c0 := canon(ct)
	dst := object.NewViewObject(pOp, "Alpha")
	object.SetContent(dst, ct)
	object.SetName(dst, "default", "a")
	d0 := canon(dst.UnstructuredContent())
	k.Check(canon(ct) == c0, "SetContent modified the content")
	scribble(ct)
	k.Check(canon(dst.UnstructuredContent()) == d0, "modifying the content after SetContent modified the object from %s to %s", d0, canon(dst.UnstructuredContent()))

	// Patch
	pt := m{"spec": m{"extra": genSpec(r), "i": l{m{"x": int64(1)}, int64(2)}}}
	p0 := canon(pt)
	if err := object.Patch(dst, pt); err == nil {
		k.Check(canon(pt) == p0, "Patch modified the patch from %s to %s", p0, canon(pt))
		d0 = canon(dst.UnstructuredContent())
		scribble(pt)
		k.Check(canon(dst.UnstructuredContent()) == d0, "modifying the patch afterwards modified the object from %s to %s", d0, canon(dst.UnstructuredContent()))
	}

	// MergeAny
	a, b := any(genSpec(r)), any(m{"t": m{"n": genSpec(r)}, "zz": genSpec(r)["lo"]})
	a0, b0 := canon(a), canon(b)
	if mg, err := object.MergeAny(a, b); err == nil {
		k.Check(canon(a) == a0 && canon(b) == b0, "MergeAny modified its arguments")
		_ = mg
	}
	// lists with spare capacity, as results of other operators often are
	la := append(make([]any, 0, 8), "x", int64(1))
	lb := []any{int64(7), "y"}
	var ma, mb any = la, lb
	if r.Intn(2) == 0 {
		ma, mb = m{"l": la, "k": "z"}, m{"l": lb}
	}
	g1, err1 := object.MergeAny(ma, mb)
	g1s := canon(g1)
	lb[0] = int64(8)
	g2, err2 := object.MergeAny(ma, mb)
	k.Check(err1 == nil && err2 == nil, "cannot merge lists: %v %v", err1, err2)
	k.Check(canon(g1) == g1s, "merging %s with something else changed an earlier result from %s to %s", canon(ma), g1s, canon(g1))
	k.Check(la[:3][2] == nil, "MergeAny wrote into the backing array of its argument")
	_ = g2

	// Store
	s := cache.NewStore()
	in := object.DeepCopy(o)
	k.Check(s.Add(in) == nil, "add")
	scribble(in.UnstructuredContent())
	chk := func(what string) {
		x, ok, err := s.GetByKey("default/a")
		k.Check(ok && err == nil, "%s: get: %v %v", what, ok, err)
		k.Check(canon(x.UnstructuredContent()) == o0, "%s changed the stored object from %s to %s", what, o0, canon(x.UnstructuredContent()))
		scribble(x.UnstructuredContent())
	}
	chk("modifying an added object")
	chk("modifying an object read by key")
	x, ok, err := s.Get(o)
	k.Check(ok && err == nil, "get")
	scribble(x.UnstructuredContent())
	chk("modifying an object read")
	for _, y := range s.List() {
		scribble(y.UnstructuredContent())
	}
	chk("modifying a listed object")
	in = object.DeepCopy(o)
	k.Check(s.Update(in) == nil, "update")
	scribble(in.UnstructuredContent())
	chk("modifying an updated object")
	k.Nontrivial("o %s", o0)
}
