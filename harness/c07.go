package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/controller"
	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
	"github.com/l7mp/dcontroller/pkg/predicate"
)

func init() { checks["C07"] = checkC07 }

var allOps = []string{"@bool", "@int", "@float", "@string", "@list", "@dict", "@noop", "@isnil", "@exists", "@not", "@and", "@or",
	"@eq", "@neq", "@lt", "@lte", "@gt", "@gte", "@in", "@selector", "@definedOr", "@if", "@cond", "@switch", "@default", "@first", "@last",
	"@sum", "@add", "@sub", "@mul", "@div", "@mod", "@abs", "@ceil", "@floor", "@min", "@max", "@avg", "@len", "@count", "@concat", "@join", "@merge",
	"@hash", "@rnd", "@now", "@range", "@filter", "@map", "@any", "@all", "@none", "@fold", "@sort", "@sortBy", "@append", "@flatten", "@unique",
	"@regex", "@split", "@replace", "@format", "@upper", "@lower", "@trim", "@contains", "@lastIndex", "@nil", "@ifExists", "@get", "@set", "@aggregate",
	"@select", "@project", "@unwind", "@gather", "@demux", "@mux", "", "@", "@@", "and", "$.x", "$"}

// hostile makes a random JSON value.
func hostile(r *rand.Rand, d int) any {
	switch x := r.Intn(16); {
	case x < 2 || d <= 0 && x > 9:
		return someStrings[r.Intn(len(someStrings))]
	case x == 2:
		return []any{int64(0), int64(1), int64(-1), int64(1) << 62, int64(-1) << 63, int64(1<<31 + 5)}[r.Intn(6)]
	case x == 3:
		return []any{0.5, -1e300, 1e-300, 1.7976931348623157e308, 3.0}[r.Intn(5)]
	case x == 4:
		return nil
	case x == 5:
		return r.Intn(2) == 0
	case x == 6:
		return hostilePath(r)
	case x < 11 && d > 0:
		ls := []any{}
		for i := r.Intn(4); i > 0; i-- {
			ls = append(ls, hostile(r, d-1))
		}
		return ls
	case x < 14 && d > 0:
		return map[string]any{allOps[r.Intn(len(allOps))]: hostile(r, d-1)}
	case d > 0:
		mm := map[string]any{}
		for i := r.Intn(4); i > 0; i-- {
			key := []string{"metadata", "name", "namespace", "spec", "a", "", "apiVersion", "kind", "labels", "annotations", "data", "$.x", "matchLabels", "matchExpressions", "key", "operator", "values", "status"}[r.Intn(18)]
			mm[key] = hostile(r, d-1)
		}
		return mm
	}
	return "x"
}

var pathBits = []string{"$", "$.", "$$", "$$.", "@", ".", "..", "*", "[", "]", "[0]", "[-1]", "[*]", "[1:2]", "[::-1]", "[999999999999999999999]", "[?(@.x>1)]", "[?(@.x == 'a')]",
	"['a']", "[\"a\"]", "[a]", "[]", "[\"", "spec", "metadata", "name", "a", "x", "i", "li", "lo", "nul", "é", " ", "\\", "'", "\"", "(", ")", "?", "length()", "[?(", "[?@.x]", "[0,1]", "[?(@.n < $.spec.i)]", "[(@.length-1)]", "[9223372036854775807]", "[-9223372036854775808]", "[0:9223372036854775807]", "[?(@.s =~ /(/)]", "[?length(@.ls) > 1]", "[?match(@.s, '(')]", "[?search(@.s,'[')]", "%", "\x00", "~"}

func hostilePath(r *rand.Rand) string {
	s := "$"
	if r.Intn(4) == 0 {
		s = "$$"
	}
	if r.Intn(3) == 0 {
		s += ".spec"
	}
	for i := r.Intn(5); i > 0; i-- {
		s += pathBits[r.Intn(len(pathBits))]
	}
	if r.Intn(2) == 0 { // byte-level damage
		b := []byte(s)
		for i := r.Intn(3); i > 0 && len(b) > 0; i-- {
			b[r.Intn(len(b))] = "$.[]()?@*:'\",0-ax"[r.Intn(17)]
		}
		s = string(b)
	}
	return s
}

// mutTree damages a JSON value.
func mutTree(r *rand.Rand, v any, rate int) any {
	if r.Intn(100) < rate {
		switch r.Intn(7) {
		case 0:
			return hostile(r, 2)
		case 1:
			return map[string]any{allOps[r.Intn(len(allOps))]: v}
		case 2:
			return []any{v}
		case 3:
			return []any{v, v}
		case 4:
			return nil
		case 5:
			return hostilePath(r)
		case 6:
			return map[string]any{allOps[r.Intn(len(allOps))]: v, "extra": int64(1)}
		}
	}
	switch x := v.(type) {
	case []any:
		n := []any{}
		for _, y := range x {
			if r.Intn(200) < rate {
				continue
			}
			n = append(n, mutTree(r, y, rate))
		}
		return n
	case map[string]any:
		n := map[string]any{}
		for k, y := range x {
			if r.Intn(200) < rate {
				continue
			}
			if r.Intn(150) < rate {
				k = allOps[r.Intn(len(allOps))]
			}
			n[k] = mutTree(r, y, rate)
		}
		return n
	}
	return v
}

func mutBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for i := 1 + r.Intn(4); i > 0; i-- {
		if len(b) == 0 {
			return []byte{byte(r.Intn(256))}
		}
		p := r.Intn(len(b))
		switch r.Intn(5) {
		case 0:
			b[p] = byte(r.Intn(256))
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b = append(b[:p], append([]byte{"{}[]\",:@$.0e-nt\\"[r.Intn(16)]}, b[p:]...)...)
		case 3:
			q := p + r.Intn(len(b)-p)
			b = append(b[:p], b[q:]...)
		case 4:
			q := p + r.Intn(len(b)-p)
			b = append(b[:q:q], b[p:]...)
		}
	}
	return b
}

// hostileObj makes an object whose content is any JSON object.
func hostileObj(r *rand.Rand, kind string) object.Object {
	o := srcDoc(r, viewGVK(kind), []string{"default", ""}[r.Intn(2)], []string{"a", "b", ""}[r.Intn(3)])
	switch r.Intn(4) {
	case 0:
		return o
	case 1:
		c, _ := hostile(r, 4).(map[string]any)
		if c == nil {
			c = map[string]any{}
		}
		o.SetUnstructuredContent(c)
		return o
	}
	c, ok := mutTree(r, o.UnstructuredContent(), 3).(map[string]any)
	if !ok {
		c = map[string]any{}
	}
	o.SetUnstructuredContent(c)
	return o
}

func checkC07(c *Ctx) {
	c.Rule("no call panics, no process dies (stack overflow, fatal error), no case runs longer than a minute; whatever is accepted is printed, serialised, parsed back, deep-copied and run on hostile data")
	c.Assume("objects are JSON values: maps with string keys, lists, strings, 64 bit integers, floats, booleans and nulls")
	lim := 60 * time.Second
	c.SectionT("expr", c.N(120000, 2000000), 8, lim, c07expr)
	c.SectionT("path", c.N(16000, 300000), 8, lim, c07path)
	c.SectionT("pipe", c.N(30000, 300000), 8, lim, c07pipe)
	c.SectionT("pred", c.N(20000, 400000), 8, lim, c07pred)
	c.SectionT("spec", c.N(8000, 80000), 8, lim, c07spec)
	c.SectionT("object", c.N(5000, 50000), 8, lim, c07object)
	c.SectionT("deep", c.N(60, 200), 4, lim, c07deep)
}

func exprSpec(r *rand.Rand) []byte {
	if r.Intn(3) == 0 {
		return []byte(exprJSON(hostile(r, 5)))
	}
	g := &egen{r: r, errs: []int{0, 20}[r.Intn(2)], prefix: ".spec"}
	b := []byte(exprJSON(mutTree(r, g.gen(tAny, 1+r.Intn(4)), 8)))
	if r.Intn(3) == 0 {
		b = mutBytes(r, b)
	}
	return b
}

// exercise runs everything that can be done with an accepted expression.
func (k *K) exercise(e *expression.Expression) {
	_ = e.String()
	if b, err := json.Marshal(e); err == nil {
		var f expression.Expression
		_ = json.Unmarshal(b, &f)
		_ = f.String()
	}
	cp := new(expression.Expression)
	e.DeepCopyInto(cp)
	for i := 0; i < 2; i++ {
		o := hostileObj(k.R, "Alpha")
		var subj any
		if i == 1 {
			subj = hostile(k.R, 2)
		}
		k.Log("object %s subject %s", canon(o.UnstructuredContent()), canon(subj))
		v, err := e.Evaluate(expression.EvalCtx{Object: o.UnstructuredContent(), Subject: subj, Log: logr.Discard()})
		if err == nil {
			k.Nontrivial("v %T %d", v, k.Index)
			k.Count("evaluations without an error", 1)
		} else {
			_ = err.Error()
			k.Count("evaluations with an error", 1)
		}
		_, _ = cp.Evaluate(expression.EvalCtx{Object: o.UnstructuredContent(), Subject: subj, Log: logr.Discard()})
	}
	_, _ = e.Evaluate(expression.EvalCtx{Object: nil, Subject: nil, Log: logr.Discard()})
}

func c07expr(k *K) {
	b := exprSpec(k.R)
	k.Log("expression %q", b)
	var e expression.Expression
	if err := json.Unmarshal(b, &e); err != nil {
		_ = err.Error()
		_ = e.UnmarshalJSON(b)
		k.Count("rejected", 1)
		return
	}
	k.Count("accepted", 1)
	k.exercise(&e)
}

func c07path(k *K) {
	r := k.R
	p := hostilePath(r)
	k.Log("path %q", p)
	o := hostileObj(r, "Alpha")
	_, err := expression.GetJSONPathRaw(p, o.UnstructuredContent())
	if err == nil {
		k.Nontrivial("path %s", p)
	}
	x := copyMap(o.UnstructuredContent())
	_ = expression.SetJSONPathRaw(p, hostile(r, 2), x)
	specs := []any{p, map[string]any{p: hostile(r, 1), "a": p}, map[string]any{"@string": p}, []any{p, p}, map[string]any{"@filter": []any{map[string]any{"@isnil": p}, "$.spec.lo"}}}
	b := []byte(exprJSON(specs[r.Intn(len(specs))]))
	var e expression.Expression
	if err := json.Unmarshal(b, &e); err == nil {
		k.exercise(&e)
	}
	k.Count("paths", 1)
}

func pipeSpec(r *rand.Rand) ([]byte, *pspec) {
	p := genPipe1(r, []int{0, 10}[r.Intn(2)], 4, pipeKinds)
	var v any
	_ = json.Unmarshal([]byte(stagesJSON(p.stages)), &v)
	if r.Intn(4) > 0 {
		v = mutTree(r, v, 4)
	}
	b := []byte(exprJSON(v))
	if r.Intn(5) == 0 {
		b = mutBytes(r, b)
	}
	return b, p
}

func c07pipe(k *K) {
	r := k.R
	b, p := pipeSpec(r)
	k.Log("pipeline %q over %v", b, p.kinds)
	var pl opv1a1.Pipeline
	if err := json.Unmarshal(b, &pl); err != nil {
		k.Count("rejected", 1)
		return
	}
	if b2, err := json.Marshal(pl); err == nil {
		var q opv1a1.Pipeline
		_ = json.Unmarshal(b2, &q)
	}
	pl = *pl.DeepCopy()
	gvks := p.gvks
	if r.Intn(10) == 0 {
		gvks = gvks[:r.Intn(len(gvks))]
	}
	ev, err := pipeline.New(pOp, p.target, gvks, pl, logr.Discard())
	if err != nil {
		k.Count("rejected by the pipeline", 1)
		return
	}
	k.Count("accepted", 1)
	_ = ev.String()
	n := 0
	for i := 0; i < 6; i++ {
		o := hostileObj(r, p.kinds[r.Intn(len(p.kinds))])
		t := []object.DeltaType{object.Added, object.Updated, object.Upserted, object.Deleted, object.Replaced, object.Sync}[r.Intn(6)]
		k.Log("%s %s", t, canon(o.UnstructuredContent()))
		ds, err := ev.Evaluate(object.Delta{Type: t, Object: o})
		if err != nil {
			_ = err.Error()
			k.Count("failed events", 1)
		} else {
			k.Count("processed events", 1)
		}
		for _, d := range ds {
			n++
			_ = d.String()
		}
		if i == 3 {
			_, _ = ev.Sync()
		}
	}
	if n > 0 {
		k.Nontrivial("p %d", k.Index)
	}
}

func predSpec(r *rand.Rand, d int) any {
	if d <= 0 || r.Intn(3) == 0 {
		return []any{"GenerationChanged", "ResourceVersionChanged", "LabelChanged", "AnnotationChanged", "Unknown", ""}[r.Intn(6)]
	}
	ls := []any{}
	for i := r.Intn(3); i >= 0; i-- {
		ls = append(ls, predSpec(r, d-1))
	}
	return map[string]any{[]string{"And", "Or", "Not", "Xor"}[r.Intn(4)]: ls}
}

func c07pred(k *K) {
	r := k.R
	b := []byte(exprJSON(mutTree(r, predSpec(r, 4), 5)))
	if r.Intn(3) == 0 {
		b = mutBytes(r, b)
	}
	k.Log("predicate %q", b)
	var p predicate.Predicate
	if err := json.Unmarshal(b, &p); err != nil {
		k.Count("rejected", 1)
		return
	}
	_, _ = json.Marshal(p)
	_, _ = p.DeepCopy().ToPredicate()
	tp, err := p.ToPredicate()
	if err != nil {
		k.Count("rejected at build", 1)
		return
	}
	k.Nontrivial("pred %s", b)
	o1, o2 := hostileObj(r, "Alpha"), hostileObj(r, "Alpha")
	var c1, c2 client.Object = o1, o2
	tp.Create(event.TypedCreateEvent[client.Object]{Object: c1})
	tp.Update(event.TypedUpdateEvent[client.Object]{ObjectOld: c1, ObjectNew: c2})
	tp.Delete(event.TypedDeleteEvent[client.Object]{Object: c1})
	tp.Generic(event.TypedGenericEvent[client.Object]{Object: c1})
	tp.Update(event.TypedUpdateEvent[client.Object]{ObjectOld: nil, ObjectNew: nil})
	sel := metav1.LabelSelector{}
	if json.Unmarshal([]byte(exprJSON(mutTree(r, map[string]any{"matchLabels": map[string]any{"a": "b"},
		"matchExpressions": []any{map[string]any{"key": "a", "operator": "In", "values": []any{"x"}}}}, 10))), &sel) == nil {
		if lp, err := predicate.FromLabelSelector(sel); err == nil {
			lp.Create(event.TypedCreateEvent[client.Object]{Object: c1})
		}
	}
	k.Count("accepted", 1)
}

func newHeadlessMgr() (manager.Manager, error) {
	off := true
	opts := manager.Options{Logger: logr.Discard(), Metrics: metricsserver.Options{BindAddress: "0"}}
	opts.Controller.SkipNameValidation = &off
	return manager.New((*rest.Config)(nil), opts)
}

// opSpec makes a random operator specification (in JSON form).
func opSpec(r *rand.Rand) any {
	ctrls := []any{}
	for i := r.Intn(3); i >= 0; i-- {
		p := genPipe1(r, 5, 3, pipeKinds)
		srcs := []any{}
		for _, kd := range p.kinds {
			s := map[string]any{"kind": kd}
			if r.Intn(4) == 0 {
				s["apiGroup"] = []any{"", "apps", pOp + ".view.dcontroller.io", "x.view.dcontroller.io"}[r.Intn(4)]
			}
			if r.Intn(4) == 0 {
				s["version"] = []any{"v1", "", "v1alpha1"}[r.Intn(3)]
			}
			if r.Intn(3) == 0 {
				s["type"] = []any{"Watcher", "OneShot", "Periodic", "Bogus"}[r.Intn(4)]
			}
			if r.Intn(4) == 0 {
				s["parameters"] = []any{map[string]any{"period": "10s"}, map[string]any{"period": "-1s"}, map[string]any{"period": int64(4)}, nil, "x"}[r.Intn(5)]
			}
			if r.Intn(4) == 0 {
				s["predicate"] = predSpec(r, 2)
			}
			if r.Intn(4) == 0 {
				s["labelSelector"] = map[string]any{"matchLabels": map[string]any{"app": "x"}}
			}
			if r.Intn(4) == 0 {
				s["namespace"] = "default"
			}
			srcs = append(srcs, s)
		}
		var pl any
		_ = json.Unmarshal([]byte(stagesJSON(p.stages)), &pl)
		ctrls = append(ctrls, map[string]any{"name": fmt.Sprintf("c%d", i), "sources": srcs, "pipeline": pl,
			"target": map[string]any{"kind": "Target", "type": []any{"Updater", "Patcher", "", "Zzz"}[r.Intn(4)]}})
	}
	return map[string]any{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": map[string]any{"name": "vop"},
		"spec": map[string]any{"controllers": ctrls}}
}

func c07spec(k *K) {
	r := k.R
	v := opSpec(r)
	if r.Intn(5) > 0 {
		v = mutTree(r, v, 3)
	}
	b := []byte(exprJSON(v))
	if r.Intn(6) == 0 {
		b = mutBytes(r, b)
	}
	k.Log("operator %q", b)
	var op opv1a1.Operator
	if err := json.Unmarshal(b, &op); err != nil {
		k.Count("rejected", 1)
		return
	}
	o2 := op.DeepCopy()
	_, _ = json.Marshal(o2)
	mgr, err := newHeadlessMgr()
	if err != nil {
		k.Inconclusive("no manager: %v", err)
		return
	}
	errc := make(chan error, 64)
	for _, cc := range o2.Spec.Controllers {
		ctrl, err := controller.NewDeclarative(mgr, pOp, cc, controller.Options{ErrorChan: errc})
		if ctrl != nil {
			_ = ctrl.GetName()
			_ = ctrl.GetGVKs()
			st := ctrl.GetStatus(1)
			_, _ = json.Marshal(st)
			if err == nil {
				k.Nontrivial("spec %d", k.Index)
				k.Count("accepted controllers", 1)
			} else {
				k.Count("failed controllers", 1)
			}
		}
	}
}

func c07object(k *K) {
	r := k.R
	o := hostileObj(r, []string{"Alpha", "Secret"}[r.Intn(2)])
	if r.Intn(2) == 0 {
		o.UnstructuredContent()["kind"] = "Secret"
		o.UnstructuredContent()["data"] = hostile(r, 3)
	}
	k.Log("object %s", canon(o.UnstructuredContent()))
	_ = object.Dump(o)
	p := object.DeepCopy(o)
	_ = object.DeepEqual(o, p)
	object.DecodeSecretData(p)
	q, _ := hostile(r, 4).(map[string]any)
	_ = object.Patch(p, q)
	_, _ = object.MergeAny(o.UnstructuredContent(), q)
	_, _ = object.MergeAny(hostile(r, 3), hostile(r, 3))
	_ = object.GetOperator(o)
	_, _ = object.NewViewObjectFromNativeObject("op", "V", o)
	object.WithUID(p)
	object.RemoveUID(p)
	object.SetContent(p, q)
	k.Nontrivial("o %s", canon(o.UnstructuredContent()))
	k.Count("objects", 1)
}

func c07deep(k *K) {
	// printing an expression is quadratic and the errors print every level: the time is cubic in
	// the depth, hence the moderate depths; 20000 is beyond the limit of the JSON decoder
	depth := []int{50, 200, 20000, 120}[k.Index%4]
	if k.Thorough() {
		depth = []int{50, 500, 20000, 700}[k.Index%4]
	}
	open, cl := "[", "]"
	switch (k.Index / 4) % 5 {
	case 1:
		open, cl = `{"@not":`, "}"
	case 2:
		open, cl = `{"a":`, "}"
	case 3:
		open, cl = `{"@map":["$$",`, "]}"
	case 4:
		open, cl = `{"@if":[true,`, ",1]}"
	}
	spec := strings.Repeat(open, depth) + `"$.spec"` + strings.Repeat(cl, depth)
	k.Log("depth %d of %s", depth, open)
	k.Nontrivial("deep %d %s", depth, open)
	switch (k.Index / 20) % 3 {
	case 0:
		var e expression.Expression
		if json.Unmarshal([]byte(spec), &e) == nil {
			k.exercise(&e)
			k.Count("accepted", 1)
		}
	case 1:
		var pl opv1a1.Pipeline
		if json.Unmarshal([]byte(`[{"@project":`+spec+`}]`), &pl) == nil {
			if ev, err := pipeline.New(pOp, viewGVK("Target"), []schema.GroupVersionKind{viewGVK("Alpha")}, *pl.DeepCopy(), logr.Discard()); err == nil {
				_, _ = ev.Evaluate(object.Delta{Type: object.Added, Object: srcDoc(k.R, viewGVK("Alpha"), "default", "a")})
				k.Count("accepted", 1)
			}
		}
	case 2:
		var p predicate.Predicate
		if json.Unmarshal([]byte(strings.Repeat(`{"Not":[`, depth)+`"LabelChanged"`+strings.Repeat(`]}`, depth)), &p) == nil {
			if tp, err := p.DeepCopy().ToPredicate(); err == nil {
				tp.Create(event.TypedCreateEvent[client.Object]{Object: object.New()})
				k.Count("accepted", 1)
			}
		}
	}
	// hostile data depth
	var v any = "x"
	for i := 0; i < min(depth, 3000); i++ {
		if i%2 == 0 {
			v = []any{v}
		} else {
			v = map[string]any{"a": v}
		}
	}
	o := object.New()
	o.SetUnstructuredContent(map[string]any{"metadata": map[string]any{"name": "a"}, "spec": v})
	o.SetGroupVersionKind(viewGVK("Alpha"))
	_ = object.DeepCopy(o)
	for _, es := range []string{`{"@hash":"$.spec"}`, `{"@string":"$.spec"}`, `"$..a"`, `{"@eq":["$.spec","$.spec"]}`} {
		var e expression.Expression
		if json.Unmarshal([]byte(es), &e) == nil {
			_, _ = e.Evaluate(expression.EvalCtx{Object: o.UnstructuredContent(), Log: logr.Discard()})
		}
	}
}
