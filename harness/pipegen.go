package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"slices"
	"strings"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
)

// pspec is a generated pipeline.
type pspec struct {
	kinds  []string
	gvks   []schema.GroupVersionKind
	target schema.GroupVersionKind
	stages []stage
	safe   bool // the reference model gives the exact result (no dependence on group representatives)
	gather bool
	dyn    bool // the real pipeline ends with a stage that adds a random field ts
}

func (p *pspec) String() string {
	return fmt.Sprintf("sources=%v target=%s pipeline=%s", p.gvks, p.target, stagesJSON(p.stages))
}

const pOp = "vop"

var pipeKinds = []string{"Alpha", "Beta", "Gamma", "Delta"}

func viewGVK(kind string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: pOp + ".view.dcontroller.io", Version: "v1alpha1", Kind: kind}
}

func (p *pspec) config() (opv1a1.Pipeline, error) {
	var c opv1a1.Pipeline
	st := p.stages
	if p.dyn {
		st = append(st[:len(st):len(st)], stage{"@project", l{"$.", m{"$.ts": m{"@rnd": l{int64(0), int64(1000000)}}}}})
	}
	err := json.Unmarshal([]byte(stagesJSON(st)), &c)
	return c, err
}

func (p *pspec) build() (pipeline.Evaluator, error) {
	c, err := p.config()
	if err != nil {
		return nil, fmt.Errorf("parse: %w", err)
	}
	return pipeline.New(pOp, p.target, p.gvks, c, logr.Discard())
}

// genPipe makes a random pipeline. errs is the percentage of ill-typed sub-expressions.
func genPipe(r *rand.Rand, errs int, maxStages int) *pspec {
	return genPipeOf(r, errs, maxStages, pipeKinds)
}

// genPipeOf makes a random pipeline over some of the given kinds.
func genPipeOf(r *rand.Rand, errs int, maxStages int, kinds []string) *pspec {
	var p *pspec
	for try := 0; try < 12; try++ {
		p = genPipe1(r, errs, maxStages, kinds)
		// prefer pipelines that produce something
		src := map[string][]map[string]any{}
		for i, kd := range p.kinds {
			for j := 0; j < 4; j++ {
				ns := []string{"default", "other"}[r.Intn(2)]
				src[kd] = append(src[kd], srcDoc(r, p.gvks[i], ns, []string{"a", "b", "c", "d"}[j]).UnstructuredContent())
			}
		}
		out, err := refPipe(p.stages, p.kinds, src, "v1", "T")
		if len(out) > 0 && len(out) < 200 || err != nil && errs > 0 {
			break
		}
	}
	return p
}

func genPipe1(r *rand.Rand, errs int, maxStages int, kinds []string) *pspec {
	p := &pspec{safe: true, target: viewGVK("Target")}
	n := []int{1, 1, 1, 2, 2, 2, 3, 3, 4}[r.Intn(9)]
	all := append([]string{}, kinds...)
	if n > len(all) {
		n = len(all)
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	p.kinds = all[:n]
	for _, k := range p.kinds {
		g := viewGVK(k)
		if r.Intn(4) == 0 {
			g = schema.GroupVersionKind{Group: "", Version: "v1", Kind: k}
		}
		p.gvks = append(p.gvks, g)
	}
	if r.Intn(6) == 0 { // native target
		p.target = schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "Target"}
	}
	if r.Intn(5) == 0 { // the kind of a source in another group
		k := p.kinds[r.Intn(n)]
		for _, g := range []schema.GroupVersionKind{viewGVK(k), {Group: "apps", Version: "v1", Kind: k}, {Version: "v1", Kind: k}, {Group: "other.view.dcontroller.io", Version: "v1alpha1", Kind: k}} {
			if r.Intn(2) == 0 && !slices.Contains(p.gvks, g) {
				p.target = g
			}
		}
	}
	strict := r.Intn(5) > 0
	eg := func(prefix string) *egen { return &egen{r: r, errs: errs, prefix: prefix, strict: strict} }
	add := func(op string, arg any) { p.stages = append(p.stages, stage{op, arg}) }
	// sel makes a condition that usually holds for some of the documents and not for others
	sel := func(kind string, d int) any {
		prefix := ""
		if kind != "" {
			prefix = "." + kind
		}
		var e any
		for try := 0; try < 8; try++ {
			e = eg(prefix).gen(tBool, d)
			yes, no := 0, 0
			for i := 0; i < 10; i++ {
				doc := srcDoc(r, viewGVK("X"), "default", []string{"a", "b", "c"}[r.Intn(3)]).UnstructuredContent()
				if kind != "" {
					doc = map[string]any{kind: doc}
				}
				v, err := refEval(e, refCtx{obj: doc})
				if b, ok := v.(bool); err == nil && ok && b {
					yes++
				} else if err == nil {
					no++
				}
			}
			if yes >= 5 && (no > 0 || r.Intn(3) == 0) && (errs > 0 || yes+no == 10) {
				break
			}
		}
		return e
	}
	and := func(cs ...any) any {
		if len(cs) == 1 {
			return cs[0]
		}
		return m{"@and": l(cs)}
	}
	if n > 1 || r.Intn(10) == 0 {
		var cs []any
		for i := 1; i < n; i++ {
			a, b := "$."+p.kinds[i-1], "$."+p.kinds[i]
			switch r.Intn(6) {
			case 0:
				cs = append(cs, m{"@eq": l{a + ".metadata.namespace", b + ".metadata.namespace"}})
			case 1:
				cs = append(cs, m{"@eq": l{a + ".spec.t", b + ".spec.t"}})
			case 2:
				cs = append(cs, m{"@eq": l{a + ".metadata.name", b + ".metadata.name"}})
			case 3:
				cs = append(cs, m{"@in": l{a + ".spec.t", b + ".spec.ls"}})
			case 4:
				cs = append(cs, m{"@lte": l{a + ".spec.j", b + ".spec.j"}})
			default:
				cs = append(cs, m{"@selector": l{m{"matchLabels": m{"app": "x"}}, b + ".spec.lab"}})
			}
			if r.Intn(5) == 0 {
				cs = append(cs, sel(p.kinds[r.Intn(n)], 2))
			}
		}
		if len(cs) == 0 {
			cs = append(cs, []any{true, eg("."+p.kinds[0]).gen(tBool, 1)}[r.Intn(2)])
		}
		add("@join", and(cs...))
		for r.Intn(4) == 0 {
			add("@select", sel(p.kinds[r.Intn(n)], 2))
		}
		// project to the standard shape
		names := l{}
		for i, k := range p.kinds {
			if i > 0 {
				names = append(names, "-")
			}
			names = append(names, "$."+k+".metadata.name")
		}
		var name any = m{"@concat": names}
		if r.Intn(4) == 0 { // not unique
			name = "$." + p.kinds[r.Intn(n)] + ".metadata.name"
		}
		if len(names) == 1 {
			name = names[0]
		}
		k := func() string { return p.kinds[r.Intn(n)] }
		spec := m{}
		for f, t := range map[string]typ{"b": tBool, "li": tListInt, "ls": tListStr, "lo": tListObj, "lab": tObj, "deep": tObj, "s": tStr, "i": tInt, "j": tInt, "t": tStr, "f": tFloat, "mix": tAny} {
			_ = t
			spec[f] = "" // deterministic order below
		}
		for _, f := range sortedKeys(spec) {
			spec[f] = "$." + k() + ".spec." + f
		}
		if r.Intn(2) == 0 {
			spec["i"] = eg("."+k()).gen(tInt, 2)
		}
		if r.Intn(2) == 0 {
			spec["s"] = eg("."+k()).gen(tStr, 2)
		}
		if r.Intn(4) == 0 {
			spec["whole"] = "$." + k()
		}
		add("@project", m{"metadata": m{"name": name, "namespace": "$." + k() + ".metadata.namespace"}, "spec": spec})
	}
	ns := r.Intn(maxStages + 1)
	unsafeRep := false
	for s := 0; s < ns; s++ {
		switch r.Intn(12) {
		case 0, 1, 2:
			add("@select", sel("", 1+r.Intn(2)))
		case 3, 4, 5, 6:
			add("@project", genProject(r, eg("")))
		case 7, 8, 9:
			if unsafeRep {
				p.safe = false
			}
			switch r.Intn(4) {
			case 0:
				add("@unwind", "$.spec.li")
				if r.Intn(3) > 0 {
					add("@project", l{m{"metadata": "$.metadata", "spec": m{"j": "$.spec.j", "s": "$.spec.s", "t": "$.spec.t", "b": "$.spec.b", "ls": "$.spec.ls", "lo": "$.spec.lo", "lab": "$.spec.lab"}}, m{"$.spec.i": "$.spec.li"}})
				}
			case 1:
				add("@unwind", "$.spec.ls")
				if r.Intn(3) > 0 {
					add("@project", m{"metadata": "$.metadata", "spec": m{"i": "$.spec.i", "j": "$.spec.j", "s": "$.spec.ls", "t": "$.spec.t", "b": "$.spec.b", "li": "$.spec.li", "lo": "$.spec.lo", "lab": "$.spec.lab"}})
				}
			case 2:
				add("@unwind", "$.spec.lo")
				if r.Intn(3) > 0 {
					add("@project", m{"metadata": "$.metadata", "spec": m{"i": "$.spec.lo.n", "j": "$.spec.j", "s": "$.spec.s", "t": "$.spec.lo.name", "b": "$.spec.b", "li": "$.spec.li", "ls": "$.spec.lo.tags", "lab": "$.spec.lab"}})
				}
			default:
				add("@unwind", "$[\"spec\"][\"li\"]")
			}
		default:
			p.gather = true
			key := []any{"$.metadata.namespace", "$.spec.t", "$.spec.b", "$.spec.j", "$.spec.lab", m{"@concat": l{"$.spec.t", "/", "$.metadata.namespace"}}, "$.metadata.name", "$.spec.mix", l{"$.spec.mix", "$.spec.t"}}[r.Intn(9)]
			val := []string{"$.spec.i", "$.spec.s", "$.metadata.name", "$.spec.lo", "$.spec.deep", "$.spec.li"}[r.Intn(6)]
			if val == "$.metadata.name" && r.Intn(2) == 0 {
				val = "$.spec.j"
			}
			if key == any("$.metadata.name") && val == "$.metadata.name" {
				val = "$.spec.i"
			}
			if r.Intn(4) == 0 && val != "$.metadata.name" {
				// depends on the representative document
				add("@gather", l{key, val})
				unsafeRep, p.safe = true, false
				continue
			}
			// the key must survive: keep it in a separate field
			add("@project", m{"metadata": "$.metadata", "spec": "$.spec", "gk": key, "gv": val})
			add("@gather", l{"$.gk", "$.gv"})
			namee := any(m{"@concat": l{"g-", m{"@hash": "$.gk"}}})
			if r.Intn(5) == 0 {
				namee = "all"
			}
			add("@project", m{"metadata": m{"name": namee, "namespace": "grp"}, "spec": m{"t": m{"@cond": l{m{"@gt": l{m{"@len": "$.gv"}, int64(1)}}, "a", "b"}}, "k": "$.gk", "li": "$.gv", "lo": "$.gv", "i": m{"@len": "$.gv"}, "j": m{"@len": "$.gv"}, "b": true, "s": "g", "lab": m{}}})
		}
	}
	if r.Intn(12) == 0 { // identity-like tail
		add("@select", true)
	}
	if len(p.stages) == 0 && r.Intn(2) == 0 {
		add("@project", "$.")
	}
	// stages after a gather must not depend on the order of the gathered list
	seen := false
	for i, st := range p.stages {
		if seen && (st.op == "@unwind" || st.op != "@gather" && i > 0 && p.stages[i-1].op != "@gather") {
			j := exprJSON(st.arg)
			for _, x := range []string{"[0]", "@hash", "@eq", "@concat", "@in\""} {
				if strings.Contains(j, x) && !strings.Contains(j, `"gk":`) {
					p.safe = false
				}
			}
			if st.op == "@unwind" {
				p.safe = false
			}
		}
		seen = seen || st.op == "@gather"
	}
	return p
}

func genProject(r *rand.Rand, g *egen) any {
	var name any = "$.metadata.name"
	switch r.Intn(8) {
	case 0:
		name = m{"@concat": l{"$.metadata.name", "-", "$.spec.t"}}
	case 1:
		name = "$.spec.t" // collisions
	case 2:
		name = m{"@concat": l{"$.metadata.namespace", ".", "$.metadata.name"}}
	case 3:
		name = g.gen(tStr, 1)
	}
	var ns any = "$.metadata.namespace"
	if r.Intn(8) == 0 {
		ns = "fixed"
	}
	meta := m{"name": name, "namespace": ns}
	switch r.Intn(7) {
	case 0:
		return l{"$.", m{"$.spec.i": g.gen(tInt, 2)}}
	case 1:
		return l{m{"metadata": meta}, m{"spec": "$.spec"}, m{"spec": m{"s": g.gen(tStr, 2), "nul": nil}}}
	case 2:
		return m{"metadata": meta, "spec": "$.spec", "$.spec.i": g.gen(tInt, 2)}
	case 3:
		return m{"$.metadata": "$.metadata", "$.spec": m{"i": "$.spec.i", "j": "$.spec.j", "t": "$.spec.t", "s": "$.spec.s", "b": g.gen(tBool, 2), "li": "$.spec.li", "ls": g.gen(tListStr, 2), "lo": "$.spec.lo", "lab": "$.spec.lab", "deep": "$.spec.deep"}}
	case 4:
		meta["labels"] = m{"app": "x", "t": "$.spec.t"}
		return m{"metadata": meta, "spec": m{"i": g.gen(tInt, 2), "j": int64(1), "t": g.pick("$.spec.t", "a"), "s": g.gen(tStr, 1), "b": g.gen(tBool, 1), "li": g.gen(tListInt, 2), "ls": g.gen(tListStr, 2), "lo": g.gen(tListObj, 2), "lab": g.gen(tObj, 1), "any": g.gen(tAny, 3)}}
	case 5:
		return m{"metadata": meta, "spec": "$.spec", "status": m{"x": g.gen(tAny, 2)}}
	default:
		return m{"metadata": meta, "spec": m{"i": g.gen(tInt, 2), "j": "$.spec.j", "t": "$.spec.t", "s": "$.spec.s", "b": "$.spec.b", "li": "$.spec.li", "ls": "$.spec.ls", "lo": "$.spec.lo", "lab": "$.spec.lab"}}
	}
}

// srcDoc makes a source object.
func srcDoc(r *rand.Rand, gvk schema.GroupVersionKind, ns, name string) object.Object {
	o := object.New()
	sp := genSpec(r)
	if r.Intn(2) == 0 {
		sp["ls"] = []any{[]any{"a", "b", "c"}[r.Intn(3)], []any{"a", "b", "c"}[r.Intn(3)], "x"}[:1+r.Intn(3)]
	}
	if r.Intn(4) > 0 {
		sp["lab"].(map[string]any)["app"] = "x"
	}
	// distinct values that look alike when printed
	sp["mix"] = []any{"1", int64(1), true, "true", "[a b]", []any{"a", "b"}, []any{"a b"}, map[string]any{"a": "1"}, "map[a:1]", map[string]any{"a": int64(1)}}[r.Intn(10)]
	o.SetUnstructuredContent(map[string]any{"spec": sp})
	o.SetGroupVersionKind(gvk)
	o.SetName(name)
	o.SetNamespace(ns)
	if r.Intn(2) == 0 {
		o.SetLabels(map[string]string{"app": []string{"x", "y"}[r.Intn(2)]})
	}
	if r.Intn(3) == 0 { // metadata that only others care about
		md, ok := o.Object["metadata"].(map[string]any)
		if !ok {
			md = map[string]any{}
			o.Object["metadata"] = md
		}
		for i := 0; i <= r.Intn(3); i++ {
			switch r.Intn(8) {
			case 0, 1:
				md["deletionTimestamp"] = "2025-01-02T03:04:05Z"
			case 2:
				md["finalizers"] = []any{"l7mp.io/hold"}
			case 3:
				md["generation"] = int64(r.Intn(3))
			case 4:
				md["resourceVersion"] = fmt.Sprint(r.Intn(5))
			case 5:
				md["annotations"] = map[string]any{"kubectl.kubernetes.io/last-applied-configuration": "{}", "n": fmt.Sprint(r.Intn(3))}
			case 6:
				md["ownerReferences"] = []any{map[string]any{"apiVersion": "v1", "kind": "Owner", "name": name, "uid": "1"}}
			case 7:
				md["creationTimestamp"] = "2024-01-02T03:04:05Z"
				md["generateName"] = name
			}
		}
	}
	return o
}
