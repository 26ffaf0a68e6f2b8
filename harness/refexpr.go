package main

// Reference implementation of the expression language, written from doc/reference-expression.md. It
// works directly on the JSON form of an expression (map[string]any, []any, string, int64, float64,
// bool, nil) and shares no code with /repo.

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type refErr struct{ s string }

func (e refErr) Error() string { return e.s }

func rerr(format string, a ...any) error { return refErr{fmt.Sprintf(format, a...)} }

// errUnspec marks results that the reference leaves open (arithmetic on NaN).
var errUnspec = refErr{"unspecified"}

type refCtx struct {
	obj  any
	subj any
	in   bool // inside a list operator
}

// refEval evaluates an expression. The result never shares structure with the inputs.
func refEval(e any, c refCtx) (any, error) {
	switch x := e.(type) {
	case nil:
		return nil, nil
	case bool, int64, float64:
		return x, nil
	case string:
		if strings.HasPrefix(x, "$") {
			return refGet(x, c)
		}
		return x, nil
	case []any:
		ret := make([]any, 0, len(x))
		for _, y := range x {
			v, err := refEval(y, c)
			if err != nil {
				return nil, err
			}
			ret = append(ret, v)
		}
		// a single nested list stands for the list itself (argument unpacking)
		if len(ret) > 0 {
			if l, ok := ret[0].([]any); ok {
				if len(ret) == 1 {
					return l, nil
				}
			}
		}
		return ret, nil
	case map[string]any:
		if len(x) == 1 {
			for k, a := range x {
				if strings.HasPrefix(k, "@") {
					return refOp(k, a, c)
				}
			}
		}
		ret := map[string]any{}
		for _, k := range sortedKeys(x) {
			v, err := refEval(x[k], c)
			if err != nil {
				return nil, err
			}
			if err := refSet(ret, k, v); err != nil {
				return nil, err
			}
		}
		return ret, nil
	}
	return nil, rerr("bad expression %T", e)
}

// refArgs returns the unevaluated argument list of an operator.
func refArgs(a any) []any {
	if l, ok := a.([]any); ok {
		return l
	}
	return []any{a}
}

func refBool(v any) (bool, error) {
	if b, ok := v.(bool); ok {
		return b, nil
	}
	return false, rerr("not a bool: %v", v)
}

func refList(v any) ([]any, error) {
	if l, ok := v.([]any); ok {
		return l, nil
	}
	return nil, rerr("not a list: %v", v)
}

func refNum(v any) (i int64, f float64, isInt bool, err error) {
	switch x := v.(type) {
	case int64:
		return x, float64(x), true, nil
	case float64:
		return 0, x, false, nil
	case string:
		if n, err := strconv.ParseInt(x, 10, 64); err == nil {
			return n, float64(n), true, nil
		}
		if f, err := strconv.ParseFloat(x, 64); err == nil {
			return 0, f, false, nil
		}
	}
	return 0, 0, false, rerr("not a number: %v", v)
}

func refNums(v any, n int) (is []int64, fs []float64, allInt bool, err error) {
	l, err := refList(v)
	if err != nil {
		return nil, nil, false, err
	}
	if n >= 0 && len(l) != n {
		return nil, nil, false, rerr("expected %d arguments", n)
	}
	allInt = true
	for _, y := range l {
		i, f, isInt, err := refNum(y)
		if err != nil {
			return nil, nil, false, err
		}
		allInt = allInt && isInt
		is, fs = append(is, i), append(fs, f)
	}
	return is, fs, allInt, nil
}

func refStr(v any) (string, error) {
	switch x := v.(type) {
	case string:
		return x, nil
	case int64:
		return strconv.FormatInt(x, 10), nil
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64), nil
	}
	return "", rerr("not a string: %v", v)
}

func refOp(op string, a any, c refCtx) (any, error) {
	switch op {
	case "@noop":
		return nil, nil
	case "@and", "@or":
		for _, e := range refArgs(a) {
			v, err := refEval(e, c)
			if err != nil {
				return nil, err
			}
			b, err := refBool(v)
			if err != nil {
				return nil, err
			}
			if b == (op == "@or") {
				return b, nil
			}
		}
		return op == "@and", nil
	case "@cond":
		as := refArgs(a)
		if len(as) != 2 && len(as) != 3 {
			return nil, rerr("@cond arity")
		}
		v, err := refEval(as[0], c)
		if err != nil {
			return nil, err
		}
		b, err := refBool(v)
		if err != nil {
			return nil, err
		}
		if b {
			return refEval(as[1], c)
		}
		if len(as) == 3 {
			return refEval(as[2], c)
		}
		return nil, nil
	case "@definedOr":
		as := refArgs(a)
		if len(as) != 2 {
			return nil, rerr("arity")
		}
		v, err := refEval(as[0], c)
		if err != nil || v != nil {
			return v, err
		}
		return refEval(as[1], c)
	case "@switch":
		as := refArgs(a)
		if len(as) == 0 {
			return nil, rerr("arity")
		}
		for _, p := range as {
			pl, ok := p.([]any)
			if !ok || len(pl) != 2 {
				return nil, rerr("bad pair")
			}
			v, err := refEval(pl[0], c)
			if err != nil {
				return nil, err
			}
			b, err := refBool(v)
			if err != nil {
				return nil, err
			}
			if b {
				return refEval(pl[1], c)
			}
		}
		return nil, nil
	case "@filter", "@any", "@all", "@none", "@map":
		as := refArgs(a)
		if len(as) != 2 {
			return nil, rerr("arity")
		}
		lv, err := refEval(as[1], c)
		if err != nil {
			return nil, err
		}
		l, err := refList(lv)
		if err != nil {
			return nil, err
		}
		out := []any{}
		n := 0
		for _, item := range l {
			v, err := refEval(as[0], refCtx{obj: c.obj, subj: item, in: true})
			if err != nil {
				return nil, err
			}
			if op == "@map" {
				out = append(out, deepCopy(v))
				continue
			}
			b, err := refBool(v)
			if err != nil {
				return nil, err
			}
			if b {
				n++
				out = append(out, item)
			}
			switch { // short circuit
			case op == "@any" && b:
				return true, nil
			case op == "@none" && b, op == "@all" && !b:
				return false, nil
			}
		}
		switch op {
		case "@any":
			return false, nil
		case "@none", "@all":
			return true, nil
		}
		return out, nil
	}

	v, err := refEval(a, c)
	if err != nil {
		return nil, err
	}
	switch op {
	case "@bool":
		return refBool(v)
	case "@int":
		i, _, isInt, err := refNum(v)
		if err != nil || !isInt {
			return nil, rerr("not an int")
		}
		return i, nil
	case "@float":
		_, f, _, err := refNum(v)
		if err != nil {
			return nil, err
		}
		return f, nil
	case "@string":
		return refStr(v)
	case "@list":
		return refList(v)
	case "@dict":
		if m, ok := v.(map[string]any); ok {
			return m, nil
		}
		return nil, rerr("not a map")
	case "@isnil":
		return v == nil, nil
	case "@exists", "@has":
		return v != nil, nil
	case "@not":
		b, err := refBool(v)
		return !b, err
	case "@eq":
		l, err := refList(v)
		if err != nil {
			return nil, err
		}
		if len(l) != 2 {
			return nil, rerr("arity")
		}
		return l[0] != nil && l[1] != nil && reflect.DeepEqual(l[0], l[1]), nil
	case "@in":
		l, err := refList(v)
		if err != nil {
			return nil, err
		}
		if len(l) != 2 {
			return nil, rerr("arity")
		}
		hay, err := refList(l[1])
		if err != nil {
			return nil, err
		}
		for _, h := range hay {
			if reflect.DeepEqual(h, l[0]) {
				return true, nil
			}
		}
		return false, nil
	case "@lt", "@lte", "@gt", "@gte":
		is, fs, allInt, err := refNums(v, 2)
		if err != nil {
			return nil, err
		}
		var cmp int
		if allInt {
			cmp = big.NewInt(is[0]).Cmp(big.NewInt(is[1]))
		} else {
			if math.IsNaN(fs[0]) || math.IsNaN(fs[1]) {
				return false, nil
			}
			cmp = map[bool]int{true: 1, false: 0}[fs[0] > fs[1]] - map[bool]int{true: 1, false: 0}[fs[0] < fs[1]]
		}
		switch op {
		case "@lt":
			return cmp < 0, nil
		case "@lte":
			return cmp <= 0, nil
		case "@gt":
			return cmp > 0, nil
		}
		return cmp >= 0, nil
	case "@add", "@sub", "@mul":
		is, fs, allInt, err := refNums(v, 2)
		if err != nil {
			return nil, err
		}
		if allInt {
			switch op {
			case "@add":
				return is[0] + is[1], nil
			case "@sub":
				return is[0] - is[1], nil
			}
			return is[0] * is[1], nil
		}
		switch op {
		case "@add":
			return fs[0] + fs[1], nil
		case "@sub":
			return fs[0] - fs[1], nil
		}
		return fs[0] * fs[1], nil
	case "@div":
		_, fs, _, err := refNums(v, 2)
		if err != nil {
			return nil, err
		}
		return fs[0] / fs[1], nil
	case "@abs", "@ceil", "@floor":
		_, f, _, err := refNum(v)
		if err != nil {
			return nil, err
		}
		switch op {
		case "@abs":
			return math.Abs(f), nil
		case "@ceil":
			return math.Ceil(f), nil
		}
		return math.Floor(f), nil
	case "@sum", "@min", "@max":
		is, fs, allInt, err := refNums(v, -1)
		if err != nil {
			return nil, err
		}
		if op == "@sum" {
			if allInt {
				s := int64(0)
				for _, i := range is {
					s += i
				}
				return s, nil
			}
			s := 0.0
			for _, f := range fs {
				s += f
			}
			return s, nil
		}
		if len(is) == 0 {
			return nil, nil
		}
		best := 0
		for _, f := range fs {
			if math.IsNaN(f) {
				return nil, errUnspec
			}
		}
		for i := range is {
			var better bool
			if allInt {
				better = (op == "@min" && is[i] < is[best]) || (op == "@max" && is[i] > is[best])
			} else {
				better = (op == "@min" && fs[i] < fs[best]) || (op == "@max" && fs[i] > fs[best])
			}
			if better {
				best = i
			}
		}
		if allInt {
			return is[best], nil
		}
		return fs[best], nil
	case "@len":
		l, err := refList(v)
		return int64(len(l)), err
	case "@concat":
		l, err := refList(v)
		if err != nil {
			return nil, err
		}
		s := ""
		for _, x := range l {
			t, err := refStr(x)
			if err != nil {
				return nil, err
			}
			s += t
		}
		return s, nil
	case "@range":
		is, _, allInt, err := refNums(v, 2)
		if err != nil || !allInt {
			return nil, rerr("bad range")
		}
		if is[1] > is[0] && (is[1]-is[0] < 0 || is[1]-is[0] > 1<<20) {
			return nil, rerr("range too large")
		}
		out := []any{}
		for i := is[0]; i < is[1]; i++ {
			out = append(out, i)
		}
		return out, nil
	case "@hash":
		b, err := json.Marshal(v)
		if err != nil {
			return nil, rerr("hash")
		}
		sum := md5.Sum(b)
		s := new(big.Int).SetBytes(sum[:]).Text(36)
		for len(s) < 25 { // 128 bits in base 36, fixed width
			s = "0" + s
		}
		return s[:6], nil
	case "@selector":
		l, err := refList(v)
		if err != nil {
			return nil, err
		}
		if len(l) != 2 {
			return nil, rerr("arity")
		}
		if l[0] == nil || l[1] == nil {
			return false, nil
		}
		sel, ok1 := l[0].(map[string]any)
		lab, ok2 := l[1].(map[string]any)
		if !ok1 || !ok2 {
			return nil, rerr("bad selector")
		}
		return refSelector(sel, lab)
	}
	return nil, rerr("unknown op %s", op)
}

func sign(f float64) int {
	switch {
	case f < 0:
		return -1
	case f > 0:
		return 1
	}
	return 0
}

func refSelector(sel, lab map[string]any) (bool, error) {
	ls := map[string]string{}
	for k, v := range lab {
		ls[k] = fmt.Sprint(v)
	}
	ml, hasML := sel["matchLabels"].(map[string]any)
	me, hasME := sel["matchExpressions"].([]any)
	if !hasML && !hasME {
		ml = sel
	}
	for k, v := range ml {
		if x, ok := ls[k]; !ok || x != fmt.Sprint(v) {
			return false, nil
		}
	}
	ok := true
	for _, e := range me {
		m, isM := e.(map[string]any)
		if !isM {
			continue
		}
		key, _ := m["key"].(string)
		val, has := ls[key]
		vals, _ := m["values"].([]any)
		in := false
		for _, v := range vals {
			in = in || (has && fmt.Sprint(v) == val)
		}
		switch m["operator"] {
		case "In":
			ok = ok && in
		case "NotIn":
			ok = ok && !in
		case "Exists":
			ok = ok && has
		case "DoesNotExist":
			ok = ok && !has
		default:
			return false, rerr("bad operator")
		}
	}
	return ok, nil
}

// ---- JSONPath subset: $ | $. | $.a.b | $.a[0] | $["a"]["b"] -----------------------------------

type pathElem struct {
	name string
	idx  int
	isI  bool
}

func parsePath(p string) ([]pathElem, error) {
	s := strings.TrimPrefix(p, "$")
	var out []pathElem
	for len(s) > 0 {
		switch s[0] {
		case '.':
			s = s[1:]
			if s == "" {
				return out, nil
			}
			i := strings.IndexAny(s, ".[")
			if i < 0 {
				i = len(s)
			}
			out = append(out, pathElem{name: s[:i]})
			s = s[i:]
		case '[':
			j := strings.IndexByte(s, ']')
			if j < 0 {
				return nil, rerr("bad path")
			}
			in := s[1:j]
			s = s[j+1:]
			if len(in) > 1 && (in[0] == '"' || in[0] == '\'') {
				out = append(out, pathElem{name: in[1 : len(in)-1]})
			} else {
				n, err := strconv.Atoi(in)
				if err != nil {
					return nil, rerr("bad path")
				}
				out = append(out, pathElem{idx: n, isI: true})
			}
		default:
			return nil, rerr("bad path %q", p)
		}
	}
	return out, nil
}

func refGet(p string, c refCtx) (any, error) {
	subject := c.obj
	if strings.HasPrefix(p, "$$") && c.in {
		p = p[1:]
		subject = c.subj
	}
	es, err := parsePath(p)
	if err != nil {
		return nil, err
	}
	cur := subject
	for _, e := range es {
		if e.isI {
			l, ok := cur.([]any)
			i := e.idx
			if ok && i < 0 {
				i += len(l)
			}
			if !ok || i < 0 || i >= len(l) {
				return nil, nil
			}
			cur = l[i]
		} else {
			m, ok := cur.(map[string]any)
			if !ok {
				return nil, nil
			}
			v, ok := m[e.name]
			if !ok {
				return nil, nil
			}
			cur = v
		}
	}
	return deepCopy(cur), nil
}

// refSet sets a (possibly JSONPath) key in a map.
func refSet(m map[string]any, key string, v any) error {
	if key == "" {
		return rerr("empty key")
	}
	if key[0] != '$' {
		m[key] = v
		return nil
	}
	if key == "$." || key == "$" {
		vm, ok := v.(map[string]any)
		if !ok {
			return rerr("cannot set root")
		}
		for k, x := range vm {
			m[k] = x
		}
		return nil
	}
	es, err := parsePath(key)
	if err != nil {
		return err
	}
	cur := m
	for i, e := range es {
		if e.isI {
			return rerr("unsupported set path")
		}
		if i == len(es)-1 {
			cur[e.name] = v
			return nil
		}
		next, ok := cur[e.name].(map[string]any)
		if !ok {
			next = map[string]any{}
			cur[e.name] = next
		}
		cur = next
	}
	return nil
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, y := range x {
			m[k] = deepCopy(y)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, y := range x {
			l[i] = deepCopy(y)
		}
		return l
	}
	return v
}

func copyMap(m map[string]any) map[string]any { return deepCopy(m).(map[string]any) }

// refMerge merges b into a (project with a list of transformations).
func refMerge(a, b any) (any, error) {
	if a == nil {
		return b, nil
	}
	switch y := b.(type) {
	case nil:
		return nil, nil
	case []any:
		if x, ok := a.([]any); ok {
			return append(append([]any{}, x...), y...), nil
		}
	case map[string]any:
		if x, ok := a.(map[string]any); ok {
			out := map[string]any{}
			for k, v := range x {
				out[k] = v
			}
			for k, v := range y {
				if o, ok := x[k]; ok {
					mv, err := refMerge(o, v)
					if err != nil {
						return nil, err
					}
					out[k] = mv
				} else {
					out[k] = v
				}
			}
			return out, nil
		}
	}
	return b, nil
}

// canon renders a value with deterministic key order.
func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
