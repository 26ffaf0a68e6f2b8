package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/go-logr/logr"

	"github.com/l7mp/dcontroller/pkg/expression"
)

func init() { checks["C06"] = checkC06 }

// evalReal parses the JSON form of an expression with the real parser and evaluates it.
func evalReal(e any, obj, subj any) (v any, err error, perr error) {
	b := []byte(exprJSON(e))
	var exp expression.Expression
	if perr := json.Unmarshal(b, &exp); perr != nil {
		return nil, nil, perr
	}
	v, err = exp.Evaluate(expression.EvalCtx{Object: obj, Subject: subj, Log: logr.Discard()})
	return v, err, nil
}

// exprJSON renders an expression in JSON; floats always have a fraction or an exponent.
func exprJSON(e any) string {
	switch x := e.(type) {
	case float64:
		b, _ := json.Marshal(x)
		if !strings.ContainsAny(string(b), ".eE") {
			return string(b) + ".0"
		}
		return string(b)
	case []any:
		ps := []string{}
		for _, y := range x {
			ps = append(ps, exprJSON(y))
		}
		return "[" + strings.Join(ps, ",") + "]"
	case map[string]any:
		ps := []string{}
		for _, k := range sortedKeys(x) {
			ps = append(ps, canon(k)+":"+exprJSON(x[k]))
		}
		return "{" + strings.Join(ps, ",") + "}"
	}
	return canon(e)
}

// sameVal is type-aware equality of values (NaN equals NaN).
func sameVal(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || (math.IsNaN(x) && math.IsNaN(y)))
	case int:
		y, ok := b.(int64)
		return ok && int64(x) == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			yv, ok := y[k]
			if !ok || !sameVal(x[k], yv) {
				return false
			}
		}
		return true
	}
	return a == b
}

func opsOf(e any, m map[string]int) {
	switch x := e.(type) {
	case []any:
		for _, y := range x {
			opsOf(y, m)
		}
	case map[string]any:
		for k, y := range x {
			if strings.HasPrefix(k, "@") {
				m[k]++
			}
			opsOf(y, m)
		}
	}
}

func checkC06(c *Ctx) {
	c.Rule("Typed random expressions (depth up to 4, all documented operators, JSONPath get/set, $ and $$, 0-8%% ill-typed sub-expressions) " +
		"are parsed by the real parser and evaluated on random documents; value or error must equal an independent reference interpreter. " +
		"Non-trivial: expression/outcome pairs with at least one operator, distinct by expression and result.")
	c.Assume("@rnd and @now are checked by range/format only; a list literal whose only element is a list denotes that element (argument unpacking, as documented in the code)")
	c.Section("random", c.N(60000, 1500000), 8, func(k *K) {
		g := &egen{r: k.R, errs: []int{0, 0, 3, 8}[k.R.Intn(4)]}
		obj := map[string]any{"metadata": map[string]any{"name": "n" + fmt.Sprint(k.R.Intn(3)), "namespace": "default"}, "spec": genSpec(k.R)}
		e := g.gen(tAny, 1+k.R.Intn(4))
		compareExpr(k, e, obj)
	})
	c.Section("directed", len(directedExprs), 8, func(k *K) {
		obj := map[string]any{"metadata": map[string]any{"name": "n", "namespace": "default"}, "spec": genSpec(k.R)}
		for i := 0; i < 20; i++ {
			compareExpr(k, directedExprs[k.Index], obj)
			obj["spec"] = genSpec(k.R)
		}
	})
	c.Section("paths", c.N(8000, 200000), 8, c06paths)
	c.Section("rnd", c.N(200, 2000), 8, func(k *K) {
		lo := int64(k.R.Intn(20) - 10)
		hi := lo + 1 + int64(k.R.Intn(5))
		seen := map[int64]bool{}
		for i := 0; i < 60; i++ {
			v, err, _ := evalReal(map[string]any{"@rnd": []any{lo, hi}}, map[string]any{}, nil)
			n, ok := v.(int64)
			k.Check(err == nil && ok && n >= lo && n < hi, "@rnd [%d,%d) gave %v (%v)", lo, hi, v, err)
			seen[n] = true
		}
		k.Nontrivial("rnd %d %d %d", lo, hi, len(seen))
	})
	c.Section("now", 1, 1, func(k *K) {
		v, err, _ := evalReal(map[string]any{"x": "@now"}, map[string]any{}, nil)
		m, ok := v.(map[string]any)
		k.Check(err == nil && ok, "@now: %v %v", v, err)
		s, _ := m["x"].(string)
		k.Check(len(s) == len("2025-07-25T12:00:00Z") && s[10] == 'T' && s[19] == 'Z', "@now is not RFC3339 in UTC: %q", s)
	})
}

func compareExpr(k *K, e any, obj map[string]any) {
	want, werr := refEval(e, refCtx{obj: obj})
	in := copyMap(obj)
	var got any
	var gerr, perr error
	k.Protect("evaluation of "+canon(e), func() { got, gerr, perr = evalReal(e, in, nil) })
	k.Check(perr == nil, "valid expression %s rejected: %v", canon(e), perr)
	if werr == errUnspec {
		k.Count("unspecified_nan", 1)
		return
	}
	ops := map[string]int{}
	opsOf(e, ops)
	if (werr != nil) != (gerr != nil) {
		k.Fail("expression %s on %s: got %s, err=%v; want %s, err=%v", canon(e), canon(obj), canon(got), gerr, canon(want), werr)
	}
	if werr == nil && !sameVal(got, want) {
		k.Fail("expression %s on %s: got %s (%T), want %s (%T)", canon(e), canon(obj), canon(got), got, canon(want), want)
	}
	// evaluating twice yields the same
	got2, gerr2, _ := evalReal(e, in, nil)
	k.Check((gerr2 != nil) == (gerr != nil) && (gerr != nil || sameVal(got2, want)), "expression %s evaluates differently the second time: %s then %s", canon(e), canon(got), canon(got2))
	if len(ops) > 0 {
		k.Nontrivial("%s=>%s/%v", canon(e), canon(want), werr != nil)
		for o := range ops {
			k.Count("op"+o, 1)
		}
		if werr != nil {
			k.Count("error_outcomes", 1)
		} else {
			k.Count("value_outcomes", 1)
		}
		if k.Index < 3 {
			k.Sample(map[string]any{"expr": canon(e), "result": canon(want), "error": werr != nil})
		}
	}
}

type m = map[string]any
type l = []any

var directedExprs = []any{
	nil, "", "$", "$.", true, int64(-7), 3.0, 3.5, "@nowhere", l{}, l{nil}, l{l{}}, l{l{int64(1)}}, l{l{}, l{}}, l{l{int64(1), int64(2)}, l{int64(3)}},
	m{}, m{"a": nil}, m{"a": "", "b": nil}, m{"@noop": nil}, m{"@noop": "$.spec"}, m{"@nosuchop": int64(1)},
	// arity errors
	m{"@cond": l{true}}, m{"@cond": l{true, int64(1), int64(2), int64(3)}}, m{"@cond": true}, m{"@cond": l{false, int64(1)}}, m{"@cond": l{nil, int64(1)}},
	m{"@definedOr": l{int64(1)}}, m{"@definedOr": l{nil, nil}}, m{"@definedOr": l{int64(1), int64(2), int64(3)}}, m{"@definedOr": l{"$.spec.nul", "dflt"}},
	m{"@definedOr": l{false, true}}, m{"@definedOr": l{"", "x"}}, m{"@definedOr": l{l{}, l{int64(1)}}},
	m{"@switch": l{}}, m{"@switch": l{l{true}}}, m{"@switch": l{l{false, int64(1)}}}, m{"@switch": l{l{false, int64(1)}, l{true, int64(2)}, l{true, int64(3)}}}, m{"@switch": true}, m{"@switch": l{l{"x", int64(1)}}},
	m{"@switch": l{l{m{"@eq": l{"$.spec.t", "a"}}, "A"}, l{m{"@eq": l{"$.spec.t", "b"}}, "B"}, l{true, "other"}}},
	m{"@and": l{}}, m{"@or": l{}}, m{"@and": true}, m{"@or": false}, m{"@and": l{false, "notbool"}}, m{"@and": l{"notbool", false}}, m{"@or": l{true, nil}}, m{"@or": l{false, nil}}, m{"@and": "$.spec.li"},
	m{"@not": nil}, m{"@not": l{true}}, m{"@not": true},
	m{"@eq": l{int64(1)}}, m{"@eq": l{nil, nil}}, m{"@eq": l{int64(1), nil}}, m{"@eq": l{l{int64(1)}, l{int64(1)}}}, m{"@eq": l{m{"a": int64(1)}, m{"a": int64(1)}}}, m{"@eq": l{"$.spec.lab", "$.spec.lab"}},
	m{"@eq": l{"$.spec.li", "$.spec.li"}}, m{"@eq": l{"$.spec.li", "$.spec.ls"}}, m{"@eq": "$.spec.li"}, m{"@eq": l{int64(1), int64(1), int64(1)}}, m{"@eq": l{"1", int64(1)}}, m{"@eq": l{true, "true"}},
	m{"@lt": l{int64(1), int64(1)}}, m{"@lte": l{int64(1), int64(1)}}, m{"@gt": l{int64(1), int64(1)}}, m{"@gte": l{int64(1), int64(1)}},
	m{"@lt": l{1.5, int64(2)}}, m{"@gt": l{int64(9007199254740993), int64(9007199254740992)}}, m{"@lt": l{int64(1)}}, m{"@lt": l{int64(1), "x"}}, m{"@lt": l{int64(1), nil}},
	m{"@lt": l{"10", "9"}}, m{"@gte": l{"$.spec.i", "$.spec.j"}}, m{"@lt": l{"$.spec.i", "$.spec.f"}},
	m{"@any": l{true}}, m{"@any": l{true, l{}}}, m{"@all": l{false, l{}}}, m{"@none": l{true, l{}}}, m{"@none": l{true, l{int64(1)}}}, m{"@none": l{false, l{int64(1)}}}, m{"@any": l{true, "x"}}, m{"@all": l{"x", l{int64(1)}}},
	m{"@any": l{m{"@eq": l{"$$", "a"}}, "$.spec.ls"}}, m{"@all": l{m{"@gte": l{"$$", int64(0)}}, "$.spec.li"}}, m{"@none": l{m{"@eq": l{"$$.name", "a"}}, "$.spec.lo"}},
	m{"@map": l{"$$.name", "$.spec.lo"}}, m{"@map": l{m{"@add": l{"$$", "$.spec.j"}}, "$.spec.li"}}, m{"@map": l{"$$.missing", "$.spec.lo"}}, m{"@map": "$$"}, m{"@map": l{"$$"}}, m{"@map": l{"$$", l{int64(1)}, l{int64(2)}}},
	m{"@map": l{m{"@map": l{m{"@concat": l{"<", "$$", ">"}}, m{"@definedOr": l{"$$.tags", l{}}}}}, "$.spec.lo"}}, m{"@map": l{m{"name": "$$.name", "owner": "$.metadata.name"}, "$.spec.lo"}},
	m{"@filter": l{m{"@gt": l{"$$", int64(0)}}, "$.spec.li"}}, m{"@filter": l{m{"@eq": l{"$$.name", "b"}}, "$.spec.lo"}}, m{"@filter": l{true}}, m{"@filter": l{"x", l{int64(1)}}}, m{"@filter": l{m{"@in": l{"$$", l{"a", "b"}}}, "$.spec.ls"}},
	m{"@len": l{}}, m{"@len": "abc"}, m{"@len": nil}, m{"@len": "$.spec.lab"}, m{"@len": m{"@filter": l{true, "$.spec.lo"}}}, m{"@len": l{"$.spec.li"}}, m{"@len": l{"$.spec.li", "$.spec.ls"}},
	m{"@sum": l{}}, m{"@min": l{}}, m{"@max": l{}}, m{"@sum": l{int64(1), 2.5}}, m{"@min": l{int64(3), int64(-1), int64(2)}}, m{"@max": l{1.5, int64(1)}}, m{"@sum": l{"x"}}, m{"@min": int64(1)}, m{"@max": l{int64(-5), int64(-3)}},
	m{"@sum": l{int64(9007199254740993), int64(1)}}, m{"@max": l{int64(9007199254740993), int64(9007199254740992)}}, m{"@sum": "$.spec.li"}, m{"@min": "$.spec.li"}, m{"@max": l{"$.spec.li"}},
	m{"@add": l{int64(1)}}, m{"@add": l{int64(1), int64(2), int64(3)}}, m{"@add": l{0.5, 0.25}}, m{"@sub": l{int64(1), 0.5}}, m{"@sub": l{int64(3), int64(5)}}, m{"@mul": l{int64(-3), int64(5)}}, m{"@div": l{int64(1), int64(2)}}, m{"@div": l{int64(4), int64(2)}}, m{"@div": l{int64(1), int64(0)}}, m{"@div": l{int64(1)}},
	m{"@mul": l{"2", int64(3)}}, m{"@sub": l{nil, int64(1)}}, m{"@add": l{true, int64(1)}},
	m{"@abs": int64(-3)}, m{"@abs": -3.5}, m{"@ceil": 1.2}, m{"@ceil": -1.2}, m{"@floor": 1.8}, m{"@floor": -1.2}, m{"@abs": "x"}, m{"@floor": int64(2)}, m{"@abs": nil},
	m{"@concat": l{}}, m{"@concat": l{"a"}}, m{"@concat": l{"a", int64(1), "b", 1.5}}, m{"@concat": l{"a", nil}}, m{"@concat": l{"a", l{}}}, m{"@concat": "x"}, m{"@concat": "$.spec.ls"}, m{"@concat": l{"$.spec.s", "/", "$.spec.t"}}, m{"@concat": l{1e21, "|", 0.1, "|", int64(-1)}},
	m{"@string": int64(5)}, m{"@string": 5.25}, m{"@string": "x"}, m{"@string": "$.spec.s"}, m{"@string": nil}, m{"@int": "12"}, m{"@int": "x"}, m{"@int": 1.5}, m{"@int": int64(3)}, m{"@float": int64(3)}, m{"@float": "1.25"}, m{"@float": "x"}, m{"@float": nil}, m{"@bool": true}, m{"@bool": "x"}, m{"@bool": int64(1)},
	m{"@in": l{"a", l{"a", "b"}}}, m{"@in": l{"c", l{"a", "b"}}}, m{"@in": l{"a", l{}}}, m{"@in": l{"a"}}, m{"@in": l{"a", "abc"}}, m{"@in": l{l{int64(1)}, l{l{int64(1)}, l{int64(2)}}}}, m{"@in": l{"$.spec.t", "$.spec.ls"}}, m{"@in": l{nil, l{nil, int64(1)}}},
	m{"@sum": l{0.1, 0.2, 33554433.5}}, m{"@sum": l{0.1, int64(16777217)}}, m{"@string": 1e-7}, m{"@string": 123456789.125}, m{"@concat": l{"a", m{"@string": 1e-7}}}, m{"@range": l{int64(0), int64(3)}}, m{"@range": l{int64(3), int64(0)}}, m{"@range": l{int64(2), int64(2)}}, m{"@range": l{int64(-2), int64(1)}}, m{"@range": l{int64(-5), int64(-2)}}, m{"@range": l{int64(-2), int64(-5)}}, m{"@range": l{int64(3)}}, m{"@range": l{"a", int64(3)}}, m{"@range": l{0.5, int64(3)}}, m{"@range": l{int64(0), m{"@len": "$.spec.lo"}}},
	m{"@exists": "$.spec.nul"}, m{"@exists": "$.spec.missing.deeper"}, m{"@exists": ""}, m{"@exists": false}, m{"@exists": int64(0)}, m{"@has": "$.spec.li"}, m{"@isnil": "$.spec.nul"}, m{"@isnil": "$.spec.b"}, m{"@isnil": ""}, m{"@isnil": l{}}, m{"@isnil": nil},
	m{"@selector": l{m{"app": "x"}, m{"app": "x", "env": "y"}}}, m{"@selector": l{m{"app": "x"}, m{}}}, m{"@selector": l{m{}, m{"app": "x"}}}, m{"@selector": l{m{"matchLabels": m{"app": "x"}}, "$.spec.lab"}}, m{"@selector": l{m{"matchLabels": m{"app": "x"}}, nil}}, m{"@selector": l{"x", m{}}}, m{"@selector": l{m{}}},
	m{"@selector": l{m{"matchExpressions": l{m{"key": "app", "operator": "NotIn", "values": l{"x"}}}}, m{}}}, m{"@selector": l{m{"matchExpressions": l{m{"key": "app", "operator": "DoesNotExist"}}}, "$.spec.lab"}},
	m{"@hash": "x"}, m{"@hash": l{}}, m{"@hash": nil}, m{"@hash": m{"b": int64(1), "a": int64(2)}}, m{"@hash": "$.spec"}, m{"@hash": "$.spec.lab"}, m{"@hash": "$.spec.li"},
	m{"$.a.b": int64(1), "$.a.c": int64(2)}, m{"$.a": m{"x": int64(1)}, "$.a.b": int64(2)}, m{"$.": "$.spec.lab"}, m{"$.": "$.spec.lab", "app": "over"}, m{"$.": "$.spec.i"}, m{"a": m{"b": m{"c": "$.spec.deep.er"}}}, m{"$[\"a\"][\"b c\"]": "$.spec.s"},
	m{"x": "$.spec.ls", "y": m{"@map": l{m{"v": "$$"}, "$.spec.ls"}}}, m{"@a": int64(1), "@b": int64(2)},
	m{"@in": l{int64(1), l{"1", "2"}}}, m{"@in": l{"1", l{int64(1)}}}, m{"@in": l{"true", l{true}}}, m{"@in": l{int64(2), l{2.5, int64(2)}}}, m{"@in": l{m{"a": int64(1)}, l{m{"a": "1"}}}},
	m{"@selector": l{nil, m{"app": "x"}}}, m{"@selector": l{"$.spec.nul", "$.spec.lab"}}, m{"@selector": l{m{"n": "1"}, m{"n": int64(1)}}}, m{"@selector": l{m{"n": "true"}, m{"n": true}}}, m{"@selector": l{m{"n": int64(1)}, m{"n": "1"}}},
	m{"@len": l{l{int64(1), int64(2)}, l{int64(3)}}}, m{"@len": l{l{l{int64(1), int64(2)}}}}, m{"@len": l{l{}}},
	m{"@int": "010"}, m{"@int": "0x10"}, m{"@int": "1_000"}, m{"@int": "4294967296"}, m{"@int": "-7"}, m{"@int": "+7"}, m{"@int": " 7"}, m{"@sum": l{"1", "2"}}, m{"@sum": l{"010", int64(1)}}, m{"@mul": l{"1.5", "2"}},
	m{"@min": l{m{"@float": int64(2)}, 3.5}}, m{"@max": l{m{"@float": int64(7)}, 3.5}}, m{"@sum": l{m{"@float": int64(7)}, 3.0}}, m{"@string": m{"@float": int64(7)}},
	m{"x": l{false, int64(0), l{int64(0), 0.0}}}, m{"@len": m{"@range": l{int64(0), int64(1 << 20)}}}, m{"@range": l{int64(0), int64(1<<20 + 1)}},
	"$.spec.lo[0].tags[0]", "$.spec.li[-1]", "$.spec.li[99]", "$.spec.lo[1]", "$[\"spec\"][\"lab\"]", "$.spec[\"deep\"].er.s",
}

// pathVals lists what a path with wildcards and descents matches, in no particular order.
type pstep struct {
	kind byte // . child, * wildcard, d descent to a child, n index
	name string
	idx  int
}

func pathVals(d any, steps []pstep) []any {
	if len(steps) == 0 {
		return []any{d}
	}
	s, rest := steps[0], steps[1:]
	m, ism := d.(map[string]any)
	l, isl := d.([]any)
	var out []any
	switch s.kind {
	case '.':
		if v, ok := m[s.name]; ism && ok {
			out = pathVals(v, rest)
		}
	case 'n':
		if isl && s.idx < len(l) {
			out = pathVals(l[s.idx], rest)
		}
	case '*':
		for _, k := range sortedKeys(m) {
			out = append(out, pathVals(m[k], rest)...)
		}
		for _, v := range l {
			out = append(out, pathVals(v, rest)...)
		}
	case 'd':
		out = pathVals(d, append([]pstep{{kind: '.', name: s.name}}, rest...))
		for _, k := range sortedKeys(m) {
			out = append(out, pathVals(m[k], steps)...)
		}
		for _, v := range l {
			out = append(out, pathVals(v, steps)...)
		}
	}
	return out
}

// c06paths: a path that matches several values gives one of them, always the same one.
func c06paths(k *K) {
	r := k.R
	names := []string{"a", "b", "c", "d", "e", "f"}
	var gen func(d int) any
	n := 0
	gen = func(d int) any {
		n++
		switch {
		case d == 0 || r.Intn(5) == 0:
			return fmt.Sprintf("v%d", n)
		case r.Intn(3) == 0:
			l := []any{}
			for i := 0; i < 1+r.Intn(4); i++ {
				l = append(l, gen(d-1))
			}
			return l
		default:
			m := map[string]any{}
			for i := 0; i < 2+r.Intn(5); i++ {
				m[names[r.Intn(len(names))]] = gen(d - 1)
			}
			return m
		}
	}
	var doc map[string]any
	for doc == nil {
		doc, _ = gen(4).(map[string]any)
	}
	path, steps := "$", []pstep{}
	for i := 0; i < 1+r.Intn(3); i++ {
		nm := names[r.Intn(len(names))]
		switch r.Intn(5) {
		case 0:
			path += "." + nm
			steps = append(steps, pstep{kind: '.', name: nm})
		case 1:
			path += ".*"
			steps = append(steps, pstep{kind: '*'})
		case 2:
			path += "[*]"
			steps = append(steps, pstep{kind: '*'})
		case 3:
			path += ".." + nm
			steps = append(steps, pstep{kind: 'd', name: nm})
		default:
			path += "[1]"
			steps = append(steps, pstep{kind: 'n', idx: 1})
		}
	}
	want := pathVals(doc, steps)
	first := ""
	for i := 0; i < 12; i++ {
		// a copy has another iteration order
		v, err, perr := evalReal(path, deepCopy(doc), nil)
		k.Check(err == nil && perr == nil, "path %s failed on %s: %v %v", path, canon(doc), err, perr)
		if len(want) == 0 {
			k.Check(v == nil, "path %s matches nothing in %s but gave %s", path, canon(doc), canon(v))
			continue
		}
		ok := false
		for _, w := range want {
			ok = ok || canon(w) == canon(v)
		}
		k.Check(ok, "path %s gave %s on %s, which it does not match", path, canon(v), canon(doc))
		if i == 0 {
			first = canon(v)
		}
		k.Check(canon(v) == first, "path %s gave %s and then %s on %s", path, first, canon(v), canon(doc))
	}
	k.Count("paths", 1)
	if len(want) > 1 {
		k.Count("paths_with_several_matches", 1)
		k.Nontrivial("path %s %s", path, first)
	}
	k.Max("max_matches", len(want))
}
