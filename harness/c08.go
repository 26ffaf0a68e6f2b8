package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	kjson "k8s.io/apimachinery/pkg/runtime/serializer/json"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"
	crpred "sigs.k8s.io/controller-runtime/pkg/predicate"
	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
	"github.com/l7mp/dcontroller/pkg/predicate"
)

func init() { checks["C08"] = checkC08 }

func checkC08(c *Ctx) {
	c.Rule("an accepted specification is sent on random trips (JSON, indented JSON, YAML, scheme codec, deep copy, any order and number of them); the result must serialise to the same text and behave the same on every probe input, and scribbling over a deep copy must not change the original")
	c.Assume("YAML trips skip specifications with integral float literals, which the YAML library itself turns into integers; @rnd and @now are only compared textually")
	c.Section("expr", c.N(40000, 800000), 8, c08expr)
	c.Section("pipe", c.N(1500, 60000), 8, c08pipe)
	c.Section("pred", c.N(8000, 150000), 8, c08pred)
	c.Section("spec", c.N(4000, 60000), 8, c08spec)
}

func plainText(s string) bool { return !strings.Contains(s, "@rnd") && !strings.Contains(s, "@now") }

// hasIntFloat tells whether a JSON text contains an integral number written as a float.
func hasIntFloat(b []byte) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		if n, ok := t.(json.Number); ok && strings.ContainsAny(string(n), ".eE") {
			return true
		}
	}
}

func evalExp(e *expression.Expression, obj map[string]any, subj any) (v any, err error) {
	o := deepCopy(obj).(map[string]any)
	return e.Evaluate(expression.EvalCtx{Object: o, Subject: deepCopy(subj), Log: logr.Discard()})
}

func sameBehaviour(k *K, what string, a, b *expression.Expression, n int) {
	for i := 0; i < n; i++ {
		obj := srcDoc(k.R, viewGVK("Alpha"), "default", "a").UnstructuredContent()
		var subj any
		if i%2 == 1 {
			subj = []any{int64(3), "x", map[string]any{"name": "a", "n": int64(2)}, []any{int64(1)}}[k.R.Intn(4)]
		}
		v1, e1 := evalExp(a, obj, subj)
		v2, e2 := evalExp(b, obj, subj)
		if (e1 == nil) != (e2 == nil) || e1 == nil && !sameVal(v1, v2) {
			k.Fail("%s behaves differently on %s, subject %s: %s, %v instead of %s, %v", what, canon(obj), canon(subj), canon(v2), e2, canon(v1), e1)
		}
		if e1 == nil {
			k.Count("equal values", 1)
		} else {
			k.Count("equal errors", 1)
		}
	}
}

func exprTrip(k *K, e *expression.Expression) (*expression.Expression, string) {
	out := new(expression.Expression)
	switch t := k.R.Intn(6); t {
	case 0, 1:
		b, err := json.Marshal(e)
		k.Check(err == nil, "cannot serialise an accepted expression: %v", err)
		err = json.Unmarshal(b, out)
		k.Check(err == nil, "cannot parse the serialised form %s: %v", b, err)
		return out, "json"
	case 2:
		b, err := json.MarshalIndent(e, "", "  ")
		k.Check(err == nil, "cannot serialise an accepted expression: %v", err)
		err = json.Unmarshal(b, out)
		k.Check(err == nil, "cannot parse the serialised form %s: %v", b, err)
		return out, "indented json"
	case 3:
		b, err := json.Marshal(e)
		k.Check(err == nil, "cannot serialise an accepted expression: %v", err)
		if hasIntFloat(b) || string(b) == "null" {
			return e, "none"
		}
		y, err := yaml.JSONToYAML(b)
		if err != nil {
			return e, "none"
		}
		if err := yaml.Unmarshal(y, out); err != nil {
			k.Fail("cannot parse the YAML form %s: %v", y, err)
		}
		return out, "yaml"
	case 4:
		err := json.Unmarshal([]byte(e.String()), out)
		k.Check(err == nil, "cannot parse the printed form %s: %v", e.String(), err)
		return out, "print"
	default:
		e.DeepCopyInto(out)
		return out, "deepcopy"
	}
}

// scribbleExp overwrites everything reachable from an expression.
func scribbleExp(e *expression.Expression) {
	if e == nil {
		return
	}
	scribbleExp(e.Arg)
	switch x := e.Literal.(type) {
	case []expression.Expression:
		for i := range x {
			scribbleExp(&x[i])
		}
	case map[string]expression.Expression:
		for _, kk := range sortedKeys(x) {
			y := x[kk]
			scribbleExp(&y)
			x[kk] = y
		}
		x["scribble"] = expression.Expression{Op: "@bool", Literal: true}
	case map[string]any:
		scribble(x)
	case []any:
		scribble(x)
	}
	e.Op = "@string"
	e.Arg = nil
	e.Literal = "scribble"
}

// scribble overwrites everything reachable from a value.
func scribble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for _, kk := range sortedKeys(x) {
			scribble(x[kk])
			x[kk] = "scribble"
		}
		x["scribble"] = int64(1)
	case []any:
		for i := range x {
			scribble(x[i])
			x[i] = "scribble"
		}
	}
}

func c08expr(k *K) {
	r := k.R
	g := &egen{r: r, errs: []int{0, 15}[r.Intn(2)], prefix: ".spec"}
	spec := g.gen(tAny, 1+r.Intn(4))
	if r.Intn(6) == 0 {
		spec = hostile(r, 4)
	}
	text := exprJSON(spec)
	k.Log("expression %s", text)
	e := new(expression.Expression)
	if err := json.Unmarshal([]byte(text), e); err != nil {
		k.Count("rejected", 1)
		return
	}
	b0, err := json.Marshal(e)
	k.Check(err == nil, "an accepted expression cannot be serialised: %v", err)
	if orig := new(expression.Expression); json.Unmarshal([]byte(text), orig) == nil && plainText(text) {
		// the parser may normalise the text once, the behaviour must be that of the text
		f, trips := e, []string{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			var t string
			f, t = exprTrip(k, f)
			trips = append(trips, t)
			b, err := json.Marshal(f)
			k.Check(err == nil && bytes.Equal(b, b0), "after %v the expression serialises to %s (%v) instead of %s", trips, b, err, b0)
			k.Count("trips", 1)
		}
		k.Nontrivial("e %s", text)
		sameBehaviour(k, fmt.Sprintf("the expression after %v", trips), orig, f, 4)
	}
	cp := new(expression.Expression)
	e.DeepCopyInto(cp)
	scribbleExp(cp)
	b, err := json.Marshal(e)
	k.Check(err == nil && bytes.Equal(b, b0), "modifying a deep copy changed the original expression: %s instead of %s (%v)", b, b0, err)
}

func pipeTrip(k *K, p *opv1a1.Pipeline) (*opv1a1.Pipeline, string) {
	out := new(opv1a1.Pipeline)
	switch k.R.Intn(4) {
	case 0, 1:
		b, err := json.Marshal(p)
		k.Check(err == nil, "cannot serialise an accepted pipeline: %v", err)
		err = json.Unmarshal(b, out)
		k.Check(err == nil, "cannot parse the serialised pipeline %s: %v", b, err)
		return out, "json"
	case 2:
		b, err := json.Marshal(p)
		k.Check(err == nil, "cannot serialise an accepted pipeline: %v", err)
		if hasIntFloat(b) || string(b) == "null" {
			return p, "none"
		}
		y, err := yaml.JSONToYAML(b)
		if err != nil {
			return p, "none"
		}
		err = yaml.Unmarshal(y, out)
		k.Check(err == nil, "cannot parse the YAML pipeline %s: %v", y, err)
		return out, "yaml"
	default:
		return p.DeepCopy(), "deepcopy"
	}
}

func deltaSet(ds []object.Delta) string {
	var s []string
	for _, d := range ds {
		s = append(s, fmt.Sprintf("%s %s", d.Type, canon(normLists(d.Object.UnstructuredContent()))))
	}
	sortStrings(s)
	return strings.Join(s, "\n")
}

func c08pipe(k *K) {
	r := k.R
	p := genPipe(r, []int{0, 5}[r.Intn(2)], 4)
	text := stagesJSON(p.stages)
	k.Log("%s", p)
	if !plainText(text) {
		return
	}
	var orig, pl opv1a1.Pipeline
	if err := json.Unmarshal([]byte(text), &orig); err != nil {
		k.Count("rejected", 1)
		return
	}
	_ = json.Unmarshal([]byte(text), &pl)
	b0, err := json.Marshal(pl)
	k.Check(err == nil, "an accepted pipeline cannot be serialised: %v", err)
	f, trips := &pl, []string{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		var t string
		f, t = pipeTrip(k, f)
		trips = append(trips, t)
		b, err := json.Marshal(f)
		k.Check(err == nil && bytes.Equal(b, b0), "after %v the pipeline serialises to %s (%v) instead of %s", trips, b, err, b0)
		k.Count("trips", 1)
	}
	if r.Intn(2) == 0 {
		cp := f.DeepCopy()
		for _, op := range cp.Ops {
			scribbleExp(op.GetExpression())
		}
		b, err := json.Marshal(f)
		k.Check(err == nil && bytes.Equal(b, b0), "modifying a deep copy changed the original pipeline: %s instead of %s (%v)", b, b0, err)
		trips = append(trips, "deepcopy+scribble")
	}
	e1, err1 := pipeline.New(pOp, p.target, p.gvks, orig, logr.Discard())
	e2, err2 := pipeline.New(pOp, p.target, p.gvks, *f, logr.Discard())
	k.Check((err1 == nil) == (err2 == nil), "after %v the pipeline builds with %v instead of %v", trips, err2, err1)
	if err1 != nil {
		return
	}
	n := 0
	for i := 0; i < 14; i++ {
		j := r.Intn(len(p.gvks))
		o := srcDoc(r, p.gvks[j], []string{"default", "other"}[r.Intn(2)], []string{"a", "b", "c"}[r.Intn(3)])
		t := object.Upserted
		if r.Intn(4) == 0 && i > 4 {
			t = object.Deleted
		}
		k.Log("%s %s", t, canon(o.UnstructuredContent()))
		d1, err1 := e1.Evaluate(object.Delta{Type: t, Object: object.DeepCopy(o)})
		d2, err2 := e2.Evaluate(object.Delta{Type: t, Object: object.DeepCopy(o)})
		k.Check((err1 == nil) == (err2 == nil), "after %v the pipeline fails differently: %v instead of %v", trips, err2, err1)
		s1, s2 := deltaSet(d1), deltaSet(d2)
		k.Check(s1 == s2, "after %v the pipeline emits\n%s\ninstead of\n%s", trips, s2, s1)
		n += len(d1)
	}
	k.Count("deltas compared", n)
	if n > 0 {
		k.Nontrivial("p %d", k.Index)
	}
}

// predEvents are probe events for predicates.
func predEvents(r *rand.Rand) (a, b object.Object) {
	a = srcDoc(r, viewGVK("Alpha"), "default", "a")
	b = object.DeepCopy(a)
	a.SetGeneration(1)
	b.SetGeneration(1 + int64(r.Intn(2)))
	a.SetResourceVersion("1")
	b.SetResourceVersion([]string{"1", "2"}[r.Intn(2)])
	if r.Intn(2) == 0 {
		b.SetLabels(map[string]string{"l": "1"})
	}
	if r.Intn(2) == 0 {
		b.SetAnnotations(map[string]string{"l": "1"})
	}
	return a, b
}

func samePred(k *K, what string, p1, p2 crpred.TypedPredicate[client.Object]) {
	for i := 0; i < 6; i++ {
		a, b := predEvents(k.R)
		var ca, cb client.Object = a, b
		u := event.TypedUpdateEvent[client.Object]{ObjectOld: ca, ObjectNew: cb}
		x := [3]bool{p1.Create(event.TypedCreateEvent[client.Object]{Object: ca}), p1.Update(u), p1.Delete(event.TypedDeleteEvent[client.Object]{Object: ca})}
		y := [3]bool{p2.Create(event.TypedCreateEvent[client.Object]{Object: ca}), p2.Update(u), p2.Delete(event.TypedDeleteEvent[client.Object]{Object: ca})}
		k.Check(x == y, "%s decides %v instead of %v for create/update/delete", what, y, x)
		k.Count("decisions compared", 3)
	}
}

func c08pred(k *K) {
	r := k.R
	text := exprJSON(predSpec(r, 4))
	k.Log("predicate %s", text)
	p := new(predicate.Predicate)
	if err := json.Unmarshal([]byte(text), p); err != nil {
		k.Count("rejected", 1)
		return
	}
	orig := new(predicate.Predicate)
	_ = json.Unmarshal([]byte(text), orig)
	b0, err := json.Marshal(p)
	k.Check(err == nil, "an accepted predicate cannot be serialised: %v", err)
	f := p
	for i := 1 + r.Intn(4); i > 0; i-- {
		if r.Intn(2) == 0 {
			f = f.DeepCopy()
		} else {
			b, err := json.Marshal(f)
			k.Check(err == nil, "cannot serialise: %v", err)
			f = new(predicate.Predicate)
			err = json.Unmarshal(b, f)
			k.Check(err == nil, "cannot parse %s: %v", b, err)
		}
		b, err := json.Marshal(f)
		k.Check(err == nil && bytes.Equal(b, b0), "the predicate became %s (%v) instead of %s", b, err, b0)
		k.Count("trips", 1)
	}
	cp := f.DeepCopy()
	if cp.BasicPredicate != nil {
		*cp.BasicPredicate = "scribble"
	}
	if cp.BoolPredicate != nil {
		var wipe func(m *predicate.BoolPredicate)
		wipe = func(m *predicate.BoolPredicate) {
			for kk, v := range *m {
				for i := range v {
					if v[i].BoolPredicate != nil {
						wipe(v[i].BoolPredicate)
					}
					if v[i].BasicPredicate != nil {
						*v[i].BasicPredicate = "scribble"
					}
					v[i] = predicate.Predicate{}
				}
				delete(*m, kk)
			}
		}
		wipe(cp.BoolPredicate)
	}
	b, err := json.Marshal(f)
	k.Check(err == nil && bytes.Equal(b, b0), "modifying a deep copy changed the original predicate: %s instead of %s (%v)", b, b0, err)
	p1, err1 := orig.ToPredicate()
	p2, err2 := f.ToPredicate()
	k.Check((err1 == nil) == (err2 == nil), "the copied predicate converts with %v instead of %v", err2, err1)
	if err1 == nil {
		k.Nontrivial("pred %s", text)
		samePred(k, "the copied predicate", p1, p2)
	}
}

var opCodec = func() runtime.Serializer {
	s := runtime.NewScheme()
	_ = opv1a1.AddToScheme(s)
	return kjson.NewSerializerWithOptions(kjson.DefaultMetaFactory, s, s, kjson.SerializerOptions{})
}()

func c08spec(k *K) {
	r := k.R
	text := exprJSON(opSpec(r))
	k.Log("operator %s", text)
	op := new(opv1a1.Operator)
	if err := json.Unmarshal([]byte(text), op); err != nil {
		k.Count("rejected", 1)
		return
	}
	if r.Intn(2) == 0 {
		op.Status.Controllers = []opv1a1.ControllerStatus{{Name: "c0", LastErrors: []string{"e1", "e2"},
			Conditions: []metav1.Condition{{Type: "Ready", Status: "True", Reason: "r", Message: "m"}}}}
	}
	b0, err := json.Marshal(op)
	k.Check(err == nil, "an accepted operator cannot be serialised: %v", err)
	f := op
	trips := []string{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			g := new(opv1a1.Operator)
			b, err := json.Marshal(f)
			k.Check(err == nil, "cannot serialise: %v", err)
			err = json.Unmarshal(b, g)
			k.Check(err == nil, "cannot parse %s: %v", b, err)
			f, trips = g, append(trips, "json")
		case 1:
			b, err := runtime.Encode(opCodec, f)
			k.Check(err == nil, "cannot encode: %v", err)
			o, err := runtime.Decode(opCodec, b)
			k.Check(err == nil, "cannot decode %s: %v", b, err)
			g, ok := o.(*opv1a1.Operator)
			k.Check(ok, "decoded a %T", o)
			g.TypeMeta = f.TypeMeta
			f, trips = g, append(trips, "codec")
		case 2:
			f, trips = f.DeepCopyObject().(*opv1a1.Operator), append(trips, "deepcopyobject")
		case 3:
			l := &opv1a1.OperatorList{Items: []opv1a1.Operator{*f}}
			f, trips = &l.DeepCopyObject().(*opv1a1.OperatorList).Items[0], append(trips, "list deepcopy")
		default:
			f, trips = f.DeepCopy(), append(trips, "deepcopy")
		}
		b, err := json.Marshal(f)
		k.Check(err == nil && bytes.Equal(b, b0), "after %v the operator serialises to\n%s (%v) instead of\n%s", trips, b, err, b0)
		k.Count("trips", 1)
	}
	k.Nontrivial("spec %d", k.Index)
	cp := f.DeepCopy()
	for i := range cp.Spec.Controllers {
		c := &cp.Spec.Controllers[i]
		for j := range c.Sources {
			s := &c.Sources[j]
			if s.Group != nil {
				*s.Group = "scribble"
			}
			if s.Version != nil {
				*s.Version = "scribble"
			}
			if s.Namespace != nil {
				*s.Namespace = "scribble"
			}
			if s.LabelSelector != nil {
				s.LabelSelector.MatchLabels["scribble"] = "x"
			}
			if s.Predicate != nil && s.Predicate.BasicPredicate != nil {
				*s.Predicate.BasicPredicate = "scribble"
			}
			if s.Predicate != nil && s.Predicate.BoolPredicate != nil {
				(*s.Predicate.BoolPredicate)["scribble"] = nil
			}
			if s.Parameters != nil {
				for x := range s.Parameters.Raw {
					s.Parameters.Raw[x] = 'x'
				}
			}
			s.Kind = "scribble"
		}
		for _, o := range c.Pipeline.Ops {
			scribbleExp(o.GetExpression())
		}
		c.Target.Kind = "scribble"
		c.Name = "scribble"
	}
	for i := range cp.Status.Controllers {
		s := &cp.Status.Controllers[i]
		for j := range s.LastErrors {
			s.LastErrors[j] = "scribble"
		}
		for j := range s.Conditions {
			s.Conditions[j].Reason = "scribble"
		}
		s.Name = "scribble"
	}
	b, err := json.Marshal(f)
	k.Check(err == nil && bytes.Equal(b, b0), "modifying a deep copy changed the original operator:\n%s instead of\n%s (%v)", b, b0, err)
	// the specification still does the same
	fresh := new(opv1a1.Operator)
	_ = json.Unmarshal([]byte(text), fresh)
	for i := range fresh.Spec.Controllers {
		c1, c2 := &fresh.Spec.Controllers[i], &f.Spec.Controllers[i]
		k.Check(c1.Name == c2.Name && len(c1.Sources) == len(c2.Sources) && js(c1.Target) == js(c2.Target), "controller %d changed", i)
		for j := range c1.Sources {
			s1, s2 := &c1.Sources[j], &c2.Sources[j]
			k.Check(s1.Type == s2.Type && js(s1.Resource) == js(s2.Resource) && js(s1.LabelSelector) == js(s2.LabelSelector) && js(s1.Namespace) == js(s2.Namespace), "source %d/%d changed: %s / %s", i, j, js(s1), js(s2))
			k.Check((s1.Predicate == nil) == (s2.Predicate == nil), "predicate lost")
			if s1.Predicate != nil {
				p1, e1 := s1.Predicate.ToPredicate()
				p2, e2 := s2.Predicate.ToPredicate()
				k.Check((e1 == nil) == (e2 == nil), "predicate converts differently")
				if e1 == nil {
					samePred(k, "the copied predicate", p1, p2)
				}
			}
		}
		k.Check(len(c1.Pipeline.Ops) == len(c2.Pipeline.Ops), "pipeline length changed")
		for j := range c1.Pipeline.Ops {
			k.Check(c1.Pipeline.Ops[j].OpType() == c2.Pipeline.Ops[j].OpType(), "pipeline op changed")
			if x := c1.Pipeline.Ops[j].GetExpression(); plainText(x.String()) {
				sameBehaviour(k, "a pipeline expression", x, c2.Pipeline.Ops[j].GetExpression(), 1)
			}
		}
	}
}
