package main

import (
	"fmt"
	"math/rand"
)

// Random expressions (in JSON form) by type, over documents of a fixed schema with random content.

type typ int

const (
	tInt typ = iota
	tFloat
	tNum
	tBool
	tStr
	tListInt
	tListStr
	tListObj
	tObj
	tAny
)

type egen struct {
	r      *rand.Rand
	inItem typ  // type of $$ when hasItem
	has    bool // inside a list operator
	errs   int  // percentage of ill-typed sub-expressions
	prefix string
	strict bool // no references to missing data
}

var someStrings = []string{"a", "b", "nginx", "default", "x-1", "", "w\"q", "é", "10", "$x", "$.spec.i", "@now-ish", "with space", "$[", " pad ", "tab\t", "Nginx", "日本"}

func genScalarStr(r *rand.Rand) string { return someStrings[r.Intn(len(someStrings))] }

// genSpec makes the random content that expressions refer to.
func genSpec(r *rand.Rand) map[string]any {
	li := []any{}
	for i := r.Intn(5); i > 0; i-- {
		li = append(li, int64(r.Intn(9)-3))
	}
	ls := []any{}
	for i := r.Intn(4); i > 0; i-- {
		ls = append(ls, genScalarStr(r))
	}
	lo := []any{}
	for i := r.Intn(4); i > 0; i-- {
		o := map[string]any{"name": []string{"a", "b", "c"}[r.Intn(3)], "n": int64(r.Intn(5))}
		if r.Intn(3) > 0 {
			o["tags"] = []any{genScalarStr(r)}
		}
		lo = append(lo, o)
	}
	lab := map[string]any{}
	for _, k := range []string{"app", "env", "tier"} {
		if r.Intn(3) > 0 {
			lab[k] = []string{"x", "y", "z"}[r.Intn(3)]
		}
	}
	m := map[string]any{
		"i": int64(r.Intn(12) - 4), "j": int64(r.Intn(5)), "f": float64(r.Intn(40))/4 + 0.125,
		"s": genScalarStr(r), "t": []string{"a", "b", "c"}[r.Intn(3)], "b": r.Intn(2) == 0,
		"li": li, "ls": ls, "lo": lo, "lab": lab, "nul": nil,
		"deep": map[string]any{"er": map[string]any{"k": int64(r.Intn(4)), "s": genScalarStr(r)}},
	}
	if r.Intn(6) == 0 { // a big number beyond float precision
		m["i"] = int64(9007199254740993) + int64(r.Intn(3))
	}
	if r.Intn(4) == 0 { // fractions that need all the bits of a double
		m["f"] = []float64{0.1, 3.14159, 1e-7, 123456789.125, 16777217.5, -2.7182818284, 1.5e-12}[r.Intn(7)]
	}
	for _, k := range []string{"i", "s", "li", "deep", "lo", "b"} {
		if r.Intn(25) == 0 {
			delete(m, k)
		}
	}
	return m
}

func (g *egen) pick(xs ...any) any { return xs[g.r.Intn(len(xs))] }

func (g *egen) path(p string) string {
	if g.r.Intn(8) == 0 && len(p) > 0 && p[len(p)-1] != ']' { // bracket notation for the last element
		for i := len(p) - 1; i >= 0; i-- {
			if p[i] == '.' {
				return "$" + g.prefix + p[:i] + "[\"" + p[i+1:] + "\"]"
			}
		}
	}
	return "$" + g.prefix + p
}

func (g *egen) gen(t typ, d int) any {
	if g.errs > 0 && g.r.Intn(100) < g.errs {
		t = typ(g.r.Intn(int(tAny)))
	}
	if t == tAny {
		t = typ(g.r.Intn(int(tAny)))
	}
	if t == tNum {
		if g.r.Intn(4) == 0 {
			t = tFloat
		} else {
			t = tInt
		}
	}
	if d <= 0 {
		return g.leaf(t)
	}
	// generic wrappers
	switch g.r.Intn(12) {
	case 0:
		return map[string]any{"@cond": []any{g.gen(tBool, d-1), g.gen(t, d-1), g.gen(t, d-1)}}
	case 1:
		return map[string]any{"@definedOr": []any{g.gen(t, d-1), g.gen(t, d-1)}}
	case 2:
		var ps []any
		for i := g.r.Intn(3); i >= 0; i-- {
			ps = append(ps, []any{g.gen(tBool, d-1), g.gen(t, d-1)})
		}
		if g.r.Intn(2) == 0 {
			ps = append(ps, []any{true, g.gen(t, d-1)})
		}
		return map[string]any{"@switch": ps}
	case 3, 4:
		return g.leaf(t)
	}
	op := func(name string, a any) any { return map[string]any{name: a} }
	two := func(a, b any) []any { return []any{a, b} }
	switch t {
	case tInt:
		switch g.r.Intn(9) {
		case 0:
			return op("@add", two(g.gen(tInt, d-1), g.gen(tInt, d-1)))
		case 1:
			return op("@sub", two(g.gen(tInt, d-1), g.gen(tInt, d-1)))
		case 2:
			return op("@mul", two(g.gen(tInt, d-1), g.gen(tInt, d-1)))
		case 3:
			return op("@len", g.gen(g.listT(), d-1))
		case 4:
			return op("@sum", g.gen(tListInt, d-1))
		case 5:
			return op("@min", g.gen(tListInt, d-1))
		case 6:
			return op("@max", g.gen(tListInt, d-1))
		case 7:
			return op("@int", g.gen(tInt, d-1))
		default:
			return g.leaf(t)
		}
	case tFloat:
		switch g.r.Intn(8) {
		case 0:
			return op("@div", two(g.gen(tNum, d-1), g.gen(tNum, d-1)))
		case 1:
			return op("@float", g.gen(tNum, d-1))
		case 2:
			return op("@abs", g.gen(tNum, d-1))
		case 3:
			return op("@ceil", g.gen(tNum, d-1))
		case 4:
			return op("@floor", g.gen(tNum, d-1))
		case 5:
			return op("@add", two(g.gen(tFloat, d-1), g.gen(tNum, d-1)))
		case 6:
			return op("@mul", two(g.gen(tNum, d-1), g.gen(tFloat, d-1)))
		default:
			return op("@max", two(g.gen(tFloat, d-1), g.gen(tNum, d-1)))
		}
	case tBool:
		switch g.r.Intn(14) {
		case 0, 1:
			var as []any
			for i := g.r.Intn(3); i >= 0; i-- {
				as = append(as, g.gen(tBool, d-1))
			}
			return op(g.pick("@and", "@or").(string), as)
		case 2:
			return op("@not", g.gen(tBool, d-1))
		case 3, 4:
			return op(g.pick("@lt", "@lte", "@gt", "@gte").(string), two(g.gen(tNum, d-1), g.gen(tNum, d-1)))
		case 5:
			tt := g.pick(tInt, tStr, tBool, tObj).(typ)
			return op("@eq", two(g.gen(tt, d-1), g.gen(tt, d-1)))
		case 6:
			if g.r.Intn(2) == 0 {
				return op("@in", two(g.gen(tStr, d-1), g.gen(tListStr, d-1)))
			}
			return op("@in", two(g.gen(tInt, d-1), g.gen(tListInt, d-1)))
		case 7, 8, 9:
			return op(g.pick("@any", "@all", "@none").(string), g.overList(tBool, d))
		case 10:
			return op(g.pick("@exists", "@isnil", "@has").(string), g.gen(tAny, d-1))
		case 11:
			return op("@selector", two(g.selector(), g.pick(g.path(".spec.lab"), g.path(".spec.missing"), map[string]any{"app": "x"})))
		case 12:
			return op("@bool", g.gen(tBool, d-1))
		default:
			return g.leaf(t)
		}
	case tStr:
		switch g.r.Intn(5) {
		case 0, 1:
			var as []any
			for i := g.r.Intn(3); i >= 0; i-- {
				as = append(as, g.gen(g.pick(tStr, tStr, tInt).(typ), d-1))
			}
			return op("@concat", as)
		case 2:
			return op("@string", g.gen(g.pick(tStr, tInt, tFloat).(typ), d-1))
		case 3:
			return op("@hash", g.gen(tAny, d-1))
		default:
			return g.leaf(t)
		}
	case tListInt:
		switch g.r.Intn(6) {
		case 0:
			return op("@map", g.overList(tInt, d))
		case 1:
			return op("@range", two(g.gen(tInt, 0), op("@len", g.gen(g.listT(), d-1))))
		case 2:
			return op("@filter", g.filterOf(tListInt, d))
		case 3:
			return []any{g.gen(tInt, d-1), g.gen(tInt, d-1), g.gen(tInt, d-1)}
		default:
			return g.leaf(t)
		}
	case tListStr:
		switch g.r.Intn(5) {
		case 0:
			return op("@map", g.overList(tStr, d))
		case 1:
			return op("@filter", g.filterOf(tListStr, d))
		case 2:
			return []any{g.gen(tStr, d-1), g.gen(tStr, d-1)}
		default:
			return g.leaf(t)
		}
	case tListObj:
		switch g.r.Intn(4) {
		case 0:
			return op("@filter", g.filterOf(tListObj, d))
		case 1:
			return op("@map", g.overList(tObj, d))
		default:
			return g.leaf(t)
		}
	case tObj:
		m := map[string]any{}
		for i := g.r.Intn(3); i >= 0; i-- {
			m[g.pick("k1", "k2", "$.k3.x", "$.k4", "name").(string)] = g.gen(tAny, d-1)
		}
		return m
	}
	return g.leaf(t)
}

func (g *egen) listT() typ { return g.pick(tListInt, tListStr, tListObj).(typ) }

func itemOf(l typ) typ {
	switch l {
	case tListInt:
		return tInt
	case tListStr:
		return tStr
	}
	return tObj
}

func (g *egen) overList(t typ, d int) []any {
	l := g.listT()
	list := g.gen(l, d-1)
	h := *g
	h.has, h.inItem = true, itemOf(l)
	return []any{h.gen(t, d-1), list}
}

func (g *egen) filterOf(l typ, d int) []any {
	list := g.gen(l, d-1)
	h := *g
	h.has, h.inItem = true, itemOf(l)
	return []any{h.gen(tBool, d-1), list}
}

func (g *egen) selector() any {
	switch g.r.Intn(5) {
	case 0:
		return map[string]any{"app": g.pick("x", "y")}
	case 1:
		return map[string]any{"matchLabels": map[string]any{"app": g.pick("x", "y"), "env": g.pick("x", "y")}}
	case 2:
		return map[string]any{"matchExpressions": []any{
			map[string]any{"key": g.pick("app", "env"), "operator": g.pick("In", "NotIn"), "values": []any{"x", g.pick("y", "z")}}}}
	case 3:
		return map[string]any{"matchExpressions": []any{
			map[string]any{"key": g.pick("app", "tier", "none"), "operator": g.pick("Exists", "DoesNotExist")}},
			"matchLabels": map[string]any{"env": g.pick("x", "y", "z")}}
	default:
		return map[string]any{"matchExpressions": []any{
			map[string]any{"key": "app", "operator": g.pick("Bogus", "In"), "values": []any{"x"}},
			map[string]any{"key": "env", "operator": "In", "values": []any{"x", "y"}}}}
	}
}

func (g *egen) leaf(t typ) any {
	r := g.r
	if g.has && r.Intn(2) == 0 { // use the local subject
		switch {
		case g.inItem == t:
			return "$$"
		case g.inItem == tObj && t == tStr:
			return "$$.name"
		case g.inItem == tObj && t == tInt:
			return "$$.n"
		case g.inItem == tObj && t == tListStr:
			return map[string]any{"@definedOr": []any{"$$.tags", []any{}}}
		}
	}
	if g.strict {
		switch t {
		case tInt:
			return g.pick(g.path(".spec.j"), g.path(".spec.j"), int64(r.Intn(9)-2), m{"@definedOr": l{g.path(".spec.i"), int64(1)}})
		case tStr:
			return g.pick(g.path(".spec.t"), "a", "b", g.path(".metadata.name"), g.path(".metadata.namespace"), m{"@definedOr": l{g.path(".spec.s"), "dflt"}})
		}
	}
	switch t {
	case tInt:
		return g.pick(g.path(".spec.i"), g.path(".spec.j"), g.path(".spec.deep.er.k"), int64(r.Intn(9)-2), int64(3), g.path(".spec.li[0]"), g.path(".spec.missing"))
	case tFloat:
		return g.pick(g.path(".spec.f"), float64(r.Intn(20))+0.5, []float64{0.1, -0.3, 33554433.5}[r.Intn(3)])
	case tBool:
		return g.pick(g.path(".spec.b"), true, false)
	case tStr:
		return g.pick(g.path(".spec.s"), g.path(".spec.t"), g.path(".spec.deep.er.s"), "a", "b", "lit eral", g.path(".spec.ls[0]"), g.path(".spec.lo[0].name"), g.path(".metadata.name"))
	case tListInt:
		return g.pick(g.path(".spec.li"), []any{int64(1), int64(r.Intn(4))}, []any{})
	case tListStr:
		return g.pick(g.path(".spec.ls"), []any{"a", "nginx"}, []any{})
	case tListObj:
		return g.pick(g.path(".spec.lo"), g.path(".spec.lo"))
	case tObj:
		return g.pick(g.path(".spec.lab"), g.path(".spec.deep"), g.path(".metadata"), map[string]any{"k": int64(1)}, g.path(".spec"))
	}
	return fmt.Sprint("leaf")
}
