package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

func init() { checks["C05"] = checkC05 }

// ---- model Z-sets: canonical JSON -> (document, weight) ----------------------------------------

type mzEnt struct {
	doc m
	n   int
}
type mz map[string]mzEnt

func (z mz) add(doc m, n int) {
	key := js(doc)
	e := z[key]
	e.doc, e.n = doc, e.n+n
	if e.n == 0 {
		delete(z, key)
	} else {
		z[key] = e
	}
}

func (z mz) copy() mz {
	r := mz{}
	for k, e := range z {
		r[k] = e
	}
	return r
}

func (z mz) plus(o mz, sign int) mz {
	r := z.copy()
	for _, e := range o {
		r.add(e.doc, sign*e.n)
	}
	return r
}

func (z mz) String() string {
	var b strings.Builder
	for _, k := range sortedKeys(z) {
		fmt.Fprintf(&b, " %+d*%s", z[k].n, k)
	}
	if b.Len() == 0 {
		return "{}"
	}
	return b.String()[1:]
}

func (z mz) real() *dbsp.DocumentZSet {
	r := dbsp.NewDocumentZSet()
	for _, k := range sortedKeys(z) {
		if err := r.AddDocumentMutate(deepCopy(z[k].doc).(m), z[k].n); err != nil {
			panic(err)
		}
	}
	return r
}

func mzOf(z *dbsp.DocumentZSet) mz {
	r := mz{}
	l, err := z.List()
	if err != nil {
		panic(err)
	}
	for _, e := range l {
		if e.Multiplicity == 0 {
			r["zero-weight member "+js(e.Document)] = mzEnt{e.Document, 0}
			continue
		}
		if _, dup := r[js(e.Document)]; dup {
			r["duplicate member "+js(e.Document)] = mzEnt{e.Document, e.Multiplicity}
		}
		r.add(e.Document, e.Multiplicity)
	}
	return r
}

func sameMz(a, b mz) bool {
	if len(a) != len(b) {
		return false
	}
	for k, e := range a {
		f, ok := b[k]
		if !ok || f.n != e.n {
			return false
		}
	}
	return true
}

func zDoc(r *rand.Rand) m {
	d := m{"k": int64(r.Intn(3)), "v": int64(r.Intn(4))}
	if r.Intn(3) == 0 {
		d["v"] = []any{"x", "y", true, nil, 1.5, "4"}[r.Intn(6)]
	}
	if r.Intn(3) == 0 {
		d["s"] = []string{"", "a", "b", "é\"<"}[r.Intn(4)]
	}
	if r.Intn(2) == 0 {
		ls := l{}
		for i, n := 0, r.Intn(4); i < n; i++ {
			ls = append(ls, []any{int64(r.Intn(3)), "a", m{"z": int64(r.Intn(2))}, nil, l{int64(r.Intn(2))}}[r.Intn(5)])
		}
		d["l"] = ls
	}
	if r.Intn(4) == 0 {
		d["n"] = m{"a": int64(r.Intn(2)), "b": m{"c": l{}, "d": m{}}}
	}
	return d
}

func zRand(r *rand.Rand, n, maxw int, neg bool) mz {
	z := mz{}
	for i, c := 0, r.Intn(n+1); i < c; i++ {
		w := 1 + r.Intn(maxw)
		if neg && r.Intn(2) == 0 {
			w = -w
		}
		z.add(zDoc(r), w)
	}
	return z
}

// ---- operators: the real one with Go evaluators and the reference function ---------------------

type zfun struct {
	name string
	f    func(m) ([]m, error)
}

func (e zfun) Evaluate(d m) ([]m, error) { return e.f(d) }
func (e zfun) String() string            { return e.name }

type zext struct {
	name string
	f    func(m) any
}

func (e zext) Extract(d m) (any, error) { return e.f(d), nil }
func (e zext) String() string           { return e.name }

type ztrans struct {
	name string
	f    func(m, any) m
}

func (e ztrans) Transform(d m, v any) (m, error) { return e.f(d, v), nil }
func (e ztrans) String() string                  { return e.name }

// zop describes one chain operator.
type zop struct {
	name string
	mk   func() dbsp.Operator
	ref  func(mz) mz
	lin  bool
}

func genSel(r *rand.Rand) zfun {
	switch r.Intn(4) {
	case 0:
		c := int64(r.Intn(4))
		return zfun{fmt.Sprintf("k<%d", c), func(d m) ([]m, error) {
			if v, ok := d["k"].(int64); ok && v < c {
				return []m{d}, nil
			}
			return nil, nil
		}}
	case 1:
		f := []string{"s", "l", "n", "e", "key"}[r.Intn(5)]
		return zfun{"has " + f, func(d m) ([]m, error) {
			if _, ok := d[f]; ok {
				return []m{d}, nil
			}
			return []m{}, nil
		}}
	case 2:
		return zfun{"v!=1", func(d m) ([]m, error) {
			if v, ok := d["v"].(int64); ok && v == 1 {
				return nil, nil
			}
			return []m{d}, nil
		}}
	}
	return zfun{"true", func(d m) ([]m, error) { return []m{d}, nil }}
}

func genProj(r *rand.Rand) zfun {
	switch r.Intn(6) {
	case 0:
		return zfun{"drop v", func(d m) ([]m, error) {
			o := deepCopy(d).(m)
			delete(o, "v")
			return []m{o}, nil
		}}
	case 1:
		return zfun{"k,v", func(d m) ([]m, error) { return []m{{"k": d["k"], "v": d["v"]}}, nil }}
	case 2:
		return zfun{"k=k%2", func(d m) ([]m, error) {
			o := deepCopy(d).(m)
			if k, ok := o["k"].(int64); ok {
				o["k"] = k % 2
			}
			return []m{o}, nil
		}}
	case 3: // modifies the document it was given
		return zfun{"mut n", func(d m) ([]m, error) {
			if n, ok := d["n"].(m); ok {
				n["a"] = int64(7)
			}
			d["n2"] = d["n"]
			return []m{deepCopy(d).(m)}, nil
		}}
	case 4: // any number of documents
		return zfun{"multi", func(d m) ([]m, error) {
			k, _ := d["k"].(int64)
			res := []m{}
			for i := int64(0); i < k; i++ {
				o := deepCopy(d).(m)
				o["i"] = i / 2
				res = append(res, o)
			}
			return res, nil
		}}
	}
	return zfun{"const", func(d m) ([]m, error) { return []m{{"k": int64(1), "l": l{int64(1), int64(1), "a"}}}, nil }}
}

func linRef(e zfun) func(mz) mz {
	return func(z mz) mz {
		r := mz{}
		for _, x := range z {
			out, _ := e.f(deepCopy(x.doc).(m))
			for _, o := range out {
				r.add(o, x.n)
			}
		}
		return r
	}
}

func genZop(r *rand.Rand) zop {
	switch x := r.Intn(12); {
	case x < 3:
		e := genSel(r)
		return zop{"σ(" + e.name + ")", func() dbsp.Operator { return dbsp.NewSelection(e) }, linRef(e), true}
	case x < 7:
		e := genProj(r)
		return zop{"π(" + e.name + ")", func() dbsp.Operator { return dbsp.NewProjection(e) }, linRef(e), true}
	case x < 9:
		f := []string{"l", "vs"}[r.Intn(2)]
		keep := r.Intn(2) == 0
		ext := zext{"$." + f, func(d m) any { return d[f] }}
		tr := ztrans{"e", func(d m, v any) m {
			d["e"] = v
			if !keep {
				delete(d, f)
			}
			if ml, ok := v.(m); ok {
				ml["z2"] = true // scribble: it must be ours
			}
			return d
		}}
		return zop{"unwind(" + f + ")", func() dbsp.Operator { return dbsp.NewUnwind(ext, tr) }, func(z mz) mz {
			res := mz{}
			for _, x := range z {
				ls, _ := x.doc[f].(l)
				for _, v := range ls {
					res.add(tr.f(deepCopy(x.doc).(m), deepCopy(v)), x.n)
				}
			}
			return res
		}, true}
	case x < 11:
		return genGather(r)
	}
	return zop{"distinct", func() dbsp.Operator { return dbsp.NewDistinct() }, func(z mz) mz {
		res := mz{}
		for _, x := range z {
			if x.n > 0 {
				res.add(x.doc, 1)
			}
		}
		return res
	}, false}
}

// genGather: the result holds the key and the sorted values (sorted by the aggregator as well, so
// that the reference does not depend on the order), but not the representative document.
func genGather(r *rand.Rand) zop {
	kf, vf := []string{"k", "s", "v"}[r.Intn(3)], []string{"v", "k", "e", "n"}[r.Intn(4)]
	ke := zext{"$." + kf, func(d m) any { return d[kf] }}
	ve := zext{"$." + vf, func(d m) any { return d[vf] }}
	mkDoc := func(key any, vals []any) m {
		vs := deepCopy(l(vals)).(l)
		if vs == nil {
			vs = l{}
		}
		sort.SliceStable(vs, func(i, j int) bool { return js(vs[i]) < js(vs[j]) })
		return m{"k": deepCopy(key), "vs": vs, "cnt": int64(len(vs))}
	}
	tr := ztrans{"agg", func(d m, v any) m {
		in := v.(*dbsp.AggregateInput)
		return mkDoc(in.Key, in.Values)
	}}
	return zop{"gather(" + kf + "," + vf + ")", func() dbsp.Operator { return dbsp.NewGather(ke, ve, tr) }, func(z mz) mz {
		type grp struct {
			key  any
			vals []any
		}
		gs := map[string]*grp{}
		for _, x := range z {
			k, v := x.doc[kf], x.doc[vf]
			if k == nil || v == nil {
				continue
			}
			g := gs[js(k)]
			if g == nil {
				g = &grp{key: k}
				gs[js(k)] = g
			}
			for i := 0; i < x.n; i++ {
				g.vals = append(g.vals, v)
			}
		}
		res := mz{}
		for _, g := range gs {
			res.add(mkDoc(g.key, g.vals), 1)
		}
		return res
	}, false}
}

func genJoinEval(r *rand.Rand, names []string) zfun {
	mode := r.Intn(3)
	return zfun{fmt.Sprintf("join%d", mode), func(d m) ([]m, error) {
		if mode == 0 { // equality on k
			var k any
			for i, n := range names {
				x := d[n].(m)["k"]
				if i > 0 && js(x) != js(k) {
					return nil, nil
				}
				k = x
			}
			o := m{"k": k}
			for i, n := range names {
				for f, v := range d[n].(m) {
					if f != "k" {
						o[f] = v
						o[fmt.Sprintf("%s%d", f, i)] = v
					}
				}
			}
			return []m{o}, nil
		}
		if mode == 1 { // lossy cross product
			o := m{}
			for i, n := range names {
				o[fmt.Sprintf("k%d", i)] = d[n].(m)["k"]
				o["k"] = d[n].(m)["k"]
				o["v"] = d[n].(m)["v"]
				o["l"] = d[n].(m)["l"]
			}
			return []m{o}, nil
		}
		o := m{"k": int64(1)} // theta join with several outputs
		first, last := d[names[0]].(m), d[names[len(names)-1]].(m)
		if a, ok := first["k"].(int64); ok {
			if b, ok := last["k"].(int64); ok && a <= b {
				o["k"], o["v"] = a, b
				return []m{o, {"k": a, "s": "dup"}, {"k": a, "s": "dup"}}, nil
			}
		}
		return nil, nil
	}}
}

func joinRef(e zfun, names []string) func([]mz) mz {
	return func(in []mz) mz {
		res := mz{}
		var rec func(i int, d m, n int)
		rec = func(i int, d m, n int) {
			if i == len(names) {
				out, _ := e.f(deepCopy(d).(m))
				for _, o := range out {
					res.add(o, n)
				}
				return
			}
			for _, x := range in[i] {
				d[names[i]] = x.doc
				rec(i+1, d, n*x.n)
			}
		}
		rec(0, m{}, 1)
		return res
	}
}

// zgraph is a random graph.
type zgraph struct {
	names  []string
	eval   zfun
	binary bool
	ops    []zop
}

func genZgraph(r *rand.Rand, maxOps int) *zgraph {
	g := &zgraph{names: []string{"B", "A", "C", "D"}[:1+r.Intn(3)]}
	if r.Intn(2) == 0 {
		g.names = g.names[:1]
	}
	if r.Intn(12) == 0 {
		g.names = []string{"C", "A", "D", "B"}
	}
	if len(g.names) > 1 {
		g.eval = genJoinEval(r, g.names)
		g.binary = len(g.names) == 2 && r.Intn(2) == 0
	}
	for i, n := 0, r.Intn(maxOps+1); i < n; i++ {
		g.ops = append(g.ops, genZop(r))
	}
	return g
}

// build builds the real graph; inc selects incremental join operators.
func (g *zgraph) build(inc bool) *dbsp.ChainGraph {
	c := dbsp.NewChainGraph()
	for _, n := range g.names {
		c.AddInput(dbsp.NewInput(n))
	}
	if len(g.names) > 1 {
		switch {
		case inc && g.binary:
			c.SetJoin(dbsp.NewIncrementalBinaryJoin(g.eval, g.names))
		case inc:
			c.SetJoin(dbsp.NewIncrementalJoin(g.eval, g.names))
		case g.binary:
			c.SetJoin(dbsp.NewBinaryJoin(g.eval, g.names))
		default:
			c.SetJoin(dbsp.NewJoin(g.eval, g.names))
		}
	}
	for _, o := range g.ops {
		c.AddToChain(o.mk())
	}
	return c
}

func (g *zgraph) ref(in []mz) mz {
	cur := in[0]
	if len(g.names) > 1 {
		cur = joinRef(g.eval, g.names)(in)
	}
	for _, o := range g.ops {
		cur = o.ref(cur)
	}
	return cur
}

func (g *zgraph) String() string {
	s := strings.Join(g.names, ",")
	if len(g.names) > 1 {
		s += fmt.Sprintf(" → %s(bin=%v)", g.eval.name, g.binary)
	}
	for _, o := range g.ops {
		s += " → " + o.name
	}
	return s
}

// ---- check ------------------------------------------------------------------------------------

func checkC05(c *Ctx) {
	c.Rule("documents are identified by their JSON form; a Z-set is a map from documents to non-zero integers; the result of every graph after every step is compared with a reference evaluation on model Z-sets")
	c.Assume("evaluators are Go functions supplied by the harness (the pipeline's own evaluators are exercised by C01 and C06)")
	c.Section("algebra", c.N(4000, 60000), 8, c05algebra)
	c.Section("ops", c.N(3000, 40000), 8, c05ops)
	c.Section("graphs", c.N(5000, 60000), 8, c05graphs)
	c.Section("stateful", c.N(1500, 20000), 8, c05stateful)
	c.Section("fused", c.N(1500, 20000), 8, c05fused)
}

func (k *K) zeq(what string, got *dbsp.DocumentZSet, err error, want mz) {
	if err != nil {
		k.Fail("%s: error %v", what, err)
	}
	if g := mzOf(got); !sameMz(g, want) {
		k.Fail("%s:\n got  %s\n want %s", what, g, want)
	}
}

func c05algebra(k *K) {
	r := k.R
	ma, mb, mc := zRand(r, 5, 3, true), zRand(r, 5, 3, true), zRand(r, 4, 2, true)
	a, b, cc := ma.real(), mb.real(), mc.real()
	k.Log("a=%s b=%s c=%s", ma, mb, mc)
	ab, err := a.Add(b)
	k.zeq("a+b", ab, err, ma.plus(mb, 1))
	ba, err := b.Add(a)
	k.zeq("b+a", ba, err, ma.plus(mb, 1))
	x, err := ab.Add(cc)
	k.zeq("(a+b)+c", x, err, ma.plus(mb, 1).plus(mc, 1))
	bc, err := b.Add(cc)
	k.zeq("b+c", bc, err, mb.plus(mc, 1))
	x, err = a.Add(bc)
	k.zeq("a+(b+c)", x, err, ma.plus(mb, 1).plus(mc, 1))
	x, err = a.Subtract(b)
	k.zeq("a-b", x, err, ma.plus(mb, -1))
	x, err = a.Subtract(a)
	k.zeq("a-a", x, err, mz{})
	k.Check(x.IsZero() && x.Size() == 0 && x.TotalSize() == 0 && x.UniqueCount() == 0, "a-a is not zero")
	x, err = a.Add(a)
	k.zeq("a+a", x, err, ma.plus(ma, 1))
	x, err = a.Add(nil)
	k.zeq("a+nil", x, err, ma)
	d, u := mz{}, mz{}
	size, total, uniq := 0, 0, 0
	for key, e := range ma {
		if e.n > 0 {
			d[key] = mzEnt{e.doc, 1}
			u[key] = mzEnt{e.doc, 1}
			size += e.n
			total += e.n
			uniq++
		} else {
			u[key] = mzEnt{e.doc, -1}
			total -= e.n
		}
	}
	x, err = a.Distinct()
	k.zeq("distinct", x, err, d)
	x, err = x.Distinct()
	k.zeq("distinct twice", x, err, d)
	x, err = a.Unique()
	k.zeq("unique", x, err, u)
	k.Check(a.Size() == size && a.TotalSize() == total && a.UniqueCount() == uniq && a.IsZero() == (len(ma) == 0),
		"sizes of %s: %d %d %d %v", ma, a.Size(), a.TotalSize(), a.UniqueCount(), a.IsZero())
	docs, err := a.GetDocuments()
	k.Check(err == nil && len(docs) == size, "GetDocuments: %d documents, want %d", len(docs), size)
	got := mz{}
	for _, dd := range docs {
		got.add(dd, 1)
	}
	for key, e := range ma {
		if e.n > 0 && got[key].n != e.n {
			k.Fail("GetDocuments holds %s %d times, want %d", key, got[key].n, e.n)
		}
	}
	ud, err := a.GetUniqueDocuments()
	k.Check(err == nil && len(ud) == uniq, "GetUniqueDocuments: %d", len(ud))
	for i := 0; i < 4; i++ {
		var doc m
		if i < 2 && len(ma) > 0 {
			ks := sortedKeys(ma)
			doc = deepCopy(ma[ks[r.Intn(len(ks))]].doc).(m)
		} else {
			doc = zDoc(r)
		}
		n, err := a.GetMultiplicity(doc)
		k.Check(err == nil && n == ma[js(doc)].n, "multiplicity of %s is %d, want %d", js(doc), n, ma[js(doc)].n)
		ok, err := a.Contains(doc)
		k.Check(err == nil && ok == (ma[js(doc)].n > 0), "contains %s: %v", js(doc), ok)
		w := r.Intn(7) - 3
		x, err = a.AddDocument(doc, w)
		want := ma.copy()
		want.add(doc, w)
		k.zeq("AddDocument", x, err, want)
		o := zDoc(r)
		eq, err := dbsp.DeepEqual(doc, o)
		k.Check(err == nil && eq == (js(doc) == js(o)), "DeepEqual(%s,%s)=%v", js(doc), js(o), eq)
	}
	// deep copies are independent, and no operation modified its operands
	dc := a.DeepCopy()
	for _, dd := range append(docs, ud...) {
		dd["scribble"] = true
		if n, ok := dd["n"].(m); ok {
			n["scribble"] = true
		}
		if ls, ok := dd["l"].(l); ok && len(ls) > 0 {
			ls[0] = "scribble"
		}
	}
	k.zeq("a after scribbling on its documents", a, nil, ma)
	_ = dc.AddDocumentMutate(m{"k": "new"}, 1)
	k.zeq("a at the end", a, nil, ma)
	k.zeq("b at the end", b, nil, mb)
	k.zeq("c at the end", cc, nil, mc)
	if len(ma) > 1 && len(mb) > 1 {
		k.Nontrivial("alg %s %s", ma, mb)
	}
	k.Count("z-set operations", 40)
}

// c05ops: linear operators obey op(a+b)=op(a)+op(b), all equal the reference, operands survive.
func c05ops(k *K) {
	r := k.R
	o := genZop(r)
	ma, mb := zRand(r, 6, 3, o.lin), zRand(r, 6, 3, o.lin)
	a, b := ma.real(), mb.real()
	k.Log("op=%s a=%s b=%s", o.name, ma, mb)
	oa, err := o.mk().Process(a)
	k.zeq(o.name+"(a)", oa, err, o.ref(ma))
	k.zeq("input after "+o.name, a, nil, ma)
	if o.lin {
		ab, _ := a.Add(b)
		oab, err := o.mk().Process(ab)
		k.zeq(o.name+"(a+b)", oab, err, o.ref(ma).plus(o.ref(mb), 1))
	}
	z, err := o.mk().Process(dbsp.NewDocumentZSet())
	k.zeq(o.name+"(0)", z, err, mz{})
	if len(o.ref(ma)) > 0 {
		k.Nontrivial("%s %s", o.name, ma)
	}
	k.Count("op evaluations", 2)
	if _, err := o.mk().Process(a, b); err == nil {
		k.Fail("%s accepted two inputs", o.name)
	}
}

// zhist drives inputs: returns per-input deltas, keeping the accumulated weights non-negative
// unless neg.
func zDeltas(r *rand.Rand, acc []mz, neg bool) []mz {
	ds := make([]mz, len(acc))
	for i := range acc {
		d := mz{}
		if r.Intn(4) > 0 || len(acc) == 1 {
			for j, n := 0, r.Intn(4); j < n; j++ {
				if len(acc[i]) > 0 && r.Intn(2) == 0 { // retract something that is there
					ks := sortedKeys(acc[i])
					e := acc[i][ks[r.Intn(len(ks))]]
					w := -e.n
					if r.Intn(3) == 0 {
						w = -1
					}
					if cur := d[js(e.doc)].n + e.n + w; cur >= 0 || neg {
						d.add(e.doc, w)
					}
				} else {
					w := 1 + r.Intn(2)
					if neg && r.Intn(3) == 0 {
						w = -w
					}
					d.add(zDoc(r), w)
				}
			}
		}
		ds[i] = d
	}
	return ds
}

func zInputs(names []string, ds []mz) dbsp.DeltaZSet {
	r := dbsp.DeltaZSet{}
	for i, n := range names {
		r[n] = ds[i].real()
	}
	return r
}

func c05graphs(k *K) {
	r := k.R
	g := genZgraph(r, 7)
	neg := true // everything except gather is specified for negative accumulated weights
	for _, o := range g.ops {
		if strings.HasPrefix(o.name, "gather") {
			neg = false
		}
	}
	neg = neg && r.Intn(3) == 0
	k.Log("graph %s", g)

	opt := g.build(false)
	if err := dbsp.NewLinearChainRewriteEngine().Optimize(opt); err != nil {
		k.Fail("optimize: %v", err)
	}
	k.Log("optimized: %s", opt)
	inc, err := dbsp.NewExecutor(opt, logr.Discard())
	k.Check(err == nil, "executor: %v", err)
	snapG, err := dbsp.ToSnapshotGraph(opt)
	k.Check(err == nil, "snapshot graph of %s: %v", opt, err)
	snap, err := dbsp.NewSnapshotExecutor(snapG, logr.Discard())
	k.Check(err == nil, "snapshot executor: %v", err)
	plain, err := dbsp.NewSnapshotExecutor(g.build(false), logr.Discard())
	k.Check(err == nil, "plain executor: %v", err)
	back, err := dbsp.ToIncrementalGraph(snapG)
	k.Check(err == nil, "incremental graph: %v", err)
	if err := dbsp.NewLinearChainRewriteEngine().Optimize(back); err != nil {
		k.Fail("optimize again: %v", err)
	}
	inc2, err := dbsp.NewExecutor(back, logr.Discard())
	k.Check(err == nil, "executor: %v", err)

	acc := make([]mz, len(g.names))
	for i := range acc {
		acc[i] = mz{}
	}
	var hist [][]mz
	sum, sum2 := mz{}, mz{}
	steps := 2 + r.Intn(8)
	outs := 0
	for s := 0; s < steps; s++ {
		ds := zDeltas(r, acc, neg)
		if s == steps-1 && r.Intn(2) == 0 { // retract everything
			for i := range ds {
				ds[i] = mz{}.plus(acc[i], -1)
			}
		}
		hist = append(hist, ds)
		for i := range acc {
			acc[i] = acc[i].plus(ds[i], 1)
			k.Log("step %d: delta %s: %s", s, g.names[i], ds[i])
		}
		want := g.ref(acc)
		in := zInputs(g.names, ds)
		out, err := inc.Process(in)
		if err != nil {
			k.Fail("step %d: incremental: %v", s, err)
		}
		outs += len(mzOf(out))
		sum = sum.plus(mzOf(out), 1)
		if !sameMz(sum, want) {
			k.Fail("step %d: incremental outputs summed up\n got  %s\n want %s", s, sum, want)
		}
		for i, n := range g.names {
			k.zeq("input "+n+" after the step", in[n], nil, ds[i])
		}
		full := zInputs(g.names, acc)
		out, err = snap.Process(full)
		k.zeq(fmt.Sprintf("step %d: snapshot of the optimized graph", s), out, err, want)
		out, err = plain.Process(full)
		k.zeq(fmt.Sprintf("step %d: unoptimized snapshot", s), out, err, want)
		out, err = inc2.Process(in)
		if err != nil {
			k.Fail("step %d: incremental of the snapshot: %v", s, err)
		}
		if sum2 = sum2.plus(mzOf(out), 1); !sameMz(sum2, want) {
			k.Fail("step %d: incremental graph made from the snapshot graph\n got  %s\n want %s", s, sum2, want)
		}
		k.Count("graph steps", 1)
	}
	// checkpoint, disturb, roll back: the state is that of the checkpoint
	undo := inc.Checkpoint()
	if _, err := inc.Process(zInputs(g.names, zDeltas(r, acc, neg))); err != nil {
		k.Fail("disturb: %v", err)
	}
	undo()
	ds := zDeltas(r, acc, neg)
	out, err := inc.Process(zInputs(g.names, ds))
	if err != nil {
		k.Fail("after rollback: %v", err)
	}
	for i := range acc {
		acc[i] = acc[i].plus(ds[i], 1)
	}
	if s := sum.plus(mzOf(out), 1); !sameMz(s, g.ref(acc)) {
		k.Fail("after rolling back to a checkpoint\n got  %s\n want %s", s, g.ref(acc))
	}
	// after a reset the same history gives the same outputs
	inc.Reset()
	sum = mz{}
	for i := range acc {
		acc[i] = mz{}
	}
	for s, ds := range hist {
		out, err := inc.Process(zInputs(g.names, ds))
		if err != nil {
			k.Fail("step %d after reset: %v", s, err)
		}
		for i := range acc {
			acc[i] = acc[i].plus(ds[i], 1)
		}
		if sum = sum.plus(mzOf(out), 1); !sameMz(sum, g.ref(acc)) {
			k.Fail("step %d after reset\n got  %s\n want %s", s, sum, g.ref(acc))
		}
	}
	if outs > 2 {
		k.Nontrivial("%s %v", g, hist)
	}
	k.Max("longest chain", len(g.ops))
	k.Count("graphs:inputs="+fmt.Sprint(len(g.names)), 1)
	if k.Index < 3 {
		k.Sample(m{"graph": g.String(), "optimized": opt.String(), "steps": len(hist)})
	}
}

// c05stateful: the elementary stateful and structural operators.
func c05stateful(k *K) {
	r := k.R
	i1, d1, d2, i2, del := dbsp.NewIntegrator(), dbsp.NewDifferentiator(), dbsp.NewDifferentiator(), dbsp.NewIntegrator(), dbsp.NewDelay()
	names := []string{"A", "B"}
	e := genJoinEval(r, names)
	names3 := []string{"A", "B", "C"}
	e3 := genJoinEval(r, names3)
	j1, j2, j3 := dbsp.NewIncrementalJoin(e, names), dbsp.NewIncrementalBinaryJoin(e, names), dbsp.NewIncrementalJoin(e3, names3)
	acc := []mz{{}, {}, {}}
	prev := mz{}
	prevOut, prevOut3 := mz{}, mz{}
	for s, n := 0, 2+r.Intn(6); s < n; s++ {
		if s == n-1 && r.Intn(3) == 0 {
			for _, x := range []interface{ Reset() }{i1, d1, d2, i2, del, j2} {
				x.Reset()
			}
			j1, j3 = dbsp.NewIncrementalJoin(e, names), dbsp.NewIncrementalJoin(e3, names3)
			acc, prev, prevOut, prevOut3 = []mz{{}, {}, {}}, mz{}, mz{}, mz{}
			k.Log("reset")
		}
		ds := zDeltas(r, acc, true)
		for i := range acc {
			acc[i] = acc[i].plus(ds[i], 1)
		}
		k.Log("step %d: %v", s, ds)
		a, b, cc := ds[0].real(), ds[1].real(), ds[2].real()
		x, err := i1.Process(a)
		k.zeq("I", x, err, acc[0])
		x, err = d1.Process(x)
		k.zeq("D(I(a))", x, err, ds[0])
		x, err = d2.Process(a)
		if err == nil {
			x, err = i2.Process(x)
		}
		k.zeq("I(D(a))", x, err, ds[0])
		x, err = del.Process(a)
		k.zeq("delay", x, err, prev)
		prev = ds[0]
		x, err = dbsp.NewAdd().Process(a, b)
		k.zeq("add", x, err, ds[0].plus(ds[1], 1))
		x, err = dbsp.NewSubtract().Process(a, b)
		k.zeq("subtract", x, err, ds[0].plus(ds[1], -1))
		x, err = dbsp.NewNegate().Process(a)
		k.zeq("negate", x, err, mz{}.plus(ds[0], -1))
		x, err = dbsp.NewConstant(a, "c").Process()
		k.zeq("const", x, err, ds[0])
		in := dbsp.NewInput("A")
		in.SetData(a)
		x, err = in.Process()
		k.zeq("input", x, err, ds[0])

		full := joinRef(e, names)(acc[:2])
		full3 := joinRef(e3, names3)(acc)
		x, err = j1.Process(a, b)
		k.zeq("incremental n-ary join", x, err, full.plus(prevOut, -1))
		x, err = j2.Process(a, b)
		k.zeq("incremental binary join", x, err, full.plus(prevOut, -1))
		x, err = j3.Process(a, b, cc)
		k.zeq("incremental 3-ary join", x, err, full3.plus(prevOut3, -1))
		x, err = dbsp.NewJoin(e, names).Process(acc[0].real(), acc[1].real())
		k.zeq("join", x, err, full)
		x, err = dbsp.NewBinaryJoin(e, names).Process(acc[0].real(), acc[1].real())
		k.zeq("binary join", x, err, full)
		prevOut, prevOut3 = full, full3
		k.zeq("operand a", a, nil, ds[0])
		k.zeq("operand b", b, nil, ds[1])
		k.Count("stateful steps", 1)
		if len(full) > 0 && len(ds[0]) > 0 {
			k.Nontrivial("st %s %s", ds[0], ds[1])
		}
	}
}

// c05fused: fused operators equal the composition of their parts.
func c05fused(k *K) {
	r := k.R
	sel, p1 := genSel(r), genProj(r)
	ps := []dbsp.Evaluator{p1}
	ref := linRef(p1)
	for i, n := 0, r.Intn(3); i < n; i++ {
		p := genProj(r)
		ps = append(ps, p)
		prev := ref
		ref = func(z mz) mz { return linRef(p)(prev(z)) }
	}
	ma := zRand(r, 6, 3, true)
	a := ma.real()
	k.Log("sel=%s proj=%v a=%s", sel, ps, ma)
	x, err := dbsp.NewSelectThenProjections(sel, ps).Process(a)
	k.zeq("select-then-projections", x, err, ref(linRef(sel)(ma)))
	k.zeq("operand", a, nil, ma)
	x, err = dbsp.NewSelectThenProjections(nil, ps).Process(a)
	k.zeq("projections", x, err, ref(ma))
	k.zeq("operand", a, nil, ma)
	x, err = dbsp.NewProjectThenSelect(p1, sel).Process(a)
	k.zeq("project-then-select", x, err, linRef(sel)(linRef(p1)(ma)))
	k.zeq("operand", a, nil, ma)
	f, err := dbsp.FuseFilterProject(dbsp.NewSelection(sel), dbsp.NewProjection(p1))
	k.Check(err == nil, "fuse: %v", err)
	x, err = f.Process(a)
	k.zeq("fused filter-project", x, err, linRef(p1)(linRef(sel)(ma)))
	o1, o2, o3 := genZop(r), genZop(r), genZop(r)
	if o1.lin && o2.lin && o3.lin {
		f, err := dbsp.NewFusedOp([]dbsp.Operator{o1.mk(), o2.mk(), o3.mk()}, "x")
		k.Check(err == nil, "fuse: %v", err)
		x, err = f.Process(a)
		k.zeq("fused "+o1.name+o2.name+o3.name, x, err, o3.ref(o2.ref(o1.ref(ma))))
	}
	k.zeq("operand", a, nil, ma)
	if len(ma) > 1 {
		k.Nontrivial("f %s %v %s", sel, ps, ma)
	}
	k.Count("fused evaluations", 5)
}
