package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/yaml"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
)

// C21: the REST API is a faithful window onto the view store.
//
// A sequential differential workload (random REST requests of every verb interleaved with direct
// writes to the store, a model of both replies and store content checked after each of them),
// watch streams replayed against the store, and concurrent REST writers.

func init() {
	checks["C21"] = func(c *Ctx) {
		c.Rule("evaluations = REST requests whose status and reply were compared with a sequential model, after each of which the complete view store was compared with the model; watch streams whose replay was compared with the store; concurrent read-modify-write requests accounted for")
		c.Rule("distinct_nontrivial = distinct requests by verb, patch type, existence of the object, selector and outcome")
		c.Assume("an object with a top-level field called items that is a list is a list for Kubernetes' libraries, and is not generated")
		c.Assume("strategic merge patches may be refused (views have no schema) but otherwise must act like merge patches; field-manager conflicts of server-side apply are only checked for what they leave unchanged")
		c.SectionT("history", c.N(8, 60), 8, 300*time.Second, c21history)
		c.SectionT("watch", c.N(24, 160), 8, 300*time.Second, c21watch)
		c.SectionT("writers", c.N(8, 60), 4, 300*time.Second, c21writers)
	}
}

// val makes a random JSON value.
func c21val(r *rand.Rand, depth int) any {
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch r.Intn(n) {
	case 0:
		return int64(r.Intn(7) - 3)
	case 1:
		return pick(r, "", "a", "b", "x y", "ünï", "\"q\"", "1", "true", "a/b~c", "<&>")
	case 2:
		return r.Intn(2) == 0
	case 3:
		return pick(r, 1.5, -0.25, 1e-7)
	case 4:
		return pick(r, int64(1)<<53+1, -(int64(1) << 62), 4294967296)
	case 5:
		return pick(r, "2024-01-01T00:00:00Z", "10Gi", "null", "~", "0x1F", "yes", ".5", "line\nbreak")
	case 6:
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, c21val(r, depth-1))
		}
		return l
	default:
		m := map[string]any{}
		for i := r.Intn(4); i > 0; i-- {
			m[pick(r, c21fields...)] = c21val(r, depth-1)
		}
		return m
	}
}

var c21fields = []string{"a", "b", "c", "name", "a.b", "x/y", "t~u", "items", "metadata", "kind"}

func c21content(r *rand.Rand) map[string]any {
	o := map[string]any{}
	for i := r.Intn(4); i > 0; i-- {
		o[pick(r, "spec", "status", "data", "x", "a", "elements", "b.c", "l")] = c21val(r, 3)
	}
	if r.Intn(8) == 0 {
		cs := []any{}
		for i := r.Intn(6); i > 0; i-- {
			cs = append(cs, map[string]any{"type": pick(r, "Ready", "Available", "Progressing", "Degraded", "Accepted", "Synced"), "status": pick(r, "True", "False", "Unknown")})
		}
		o["status"] = map[string]any{"conditions": cs}
	}
	return o
}

func c21meta(r *rand.Rand, ns, name string) map[string]any {
	m := map[string]any{"name": name, "namespace": ns}
	if r.Intn(2) == 0 {
		l := map[string]any{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			l[pick(r, "app", "tier", "x.io/y")] = pick(r, "a", "b", "")
		}
		if r.Intn(6) == 0 {
			for _, x := range []string{"l1", "l2", "l3", "l4"}[:1+r.Intn(4)] {
				l[x] = "v"
			}
		}
		m["labels"] = l
	}
	if r.Intn(4) == 0 {
		m["annotations"] = map[string]any{pick(r, "note", "x.io/z"): pick(r, "1", "two words", "")}
	}
	if r.Intn(8) == 0 {
		m["finalizers"] = []any{pick(r, "x.io/a", "x.io/b")}
	}
	return m
}

// c21table checks a table of objects.
func c21table(k *K, what string, tab map[string]any, m *c21model, want map[c21key]bool) {
	col := map[string]int{}
	defs, _ := tab["columnDefinitions"].([]any)
	for i, d := range defs {
		col[strings.ToLower(fmt.Sprint(d.(map[string]any)["name"]))] = i
	}
	rows, _ := tab["rows"].([]any)
	seen := map[string]bool{}
	byName := map[string]map[string]any{}
	for kk := range want {
		byName[kk.NS+"/"+kk.Name] = m.objs[kk]
	}
	for _, x := range rows {
		row := x.(map[string]any)
		cells, _ := row["cells"].([]any)
		k.Check(len(cells) == len(defs), "%s: a table row has %d cells for %d columns", what, len(cells), len(defs))
		cell := func(name string) string {
			i, ok := col[name]
			k.Check(ok, "%s: the table has no column %s", what, name)
			return fmt.Sprint(cells[i])
		}
		nm := cell("namespace") + "/" + cell("name")
		o := byName[nm]
		k.Check(o != nil && !seen[nm], "%s: unexpected or repeated table row for %s", what, nm)
		seen[nm] = true
		md, _ := row["object"].(map[string]any)["metadata"].(map[string]any)
		k.Check(fmt.Sprintf("%v/%v", md["namespace"], md["name"]) == nm, "%s: the table row of %s carries the object %v", what, nm, md)
		om := o["metadata"].(map[string]any)
		labels, _ := om["labels"].(map[string]any)
		annot, _ := om["annotations"].(map[string]any)
		// labels: all of them, or the first few and the number of the rest
		var pairs []string
		for _, l := range sortedKeys(labels) {
			pairs = append(pairs, fmt.Sprintf("%s=%v", l, labels[l]))
		}
		shown, rest, _ := strings.Cut(cell("labels"), " +")
		ok := len(pairs) == 0 && shown == "<none>" && rest == ""
		if len(pairs) > 0 {
			sp := strings.Split(shown, ",")
			ok = len(sp) == len(pairs) && rest == "" || len(sp) < len(pairs) && rest == fmt.Sprintf("%d more", len(pairs)-len(sp))
			for i, x := range sp {
				ok = ok && slices.Contains(pairs, x) && !slices.Contains(sp[:i], x)
			}
		}
		k.Check(ok, "%s: the labels of %s are %v, the table shows %q", what, nm, pairs, cell("labels"))
		wa := "<none>"
		if len(annot) > 0 {
			wa = fmt.Sprint(len(annot))
		}
		k.Check(cell("annotations") == wa, "%s: %s has %d annotations, the table shows %q", what, nm, len(annot), cell("annotations"))
		// conditions: the well-known ones first
		prio := map[string]int{"Ready": 1, "Available": 2, "Progressing": 3, "Degraded": 4}
		var known, other []string
		if st, ok := o["status"].(map[string]any); ok {
			cs, _ := st["conditions"].([]any)
			for _, c := range cs {
				c, _ := c.(map[string]any)
				t, ok1 := c["type"].(string)
				v, ok2 := c["status"].(string)
				if ok1 && ok2 && prio[t] > 0 {
					known = append(known, t+":"+v)
				} else if ok1 && ok2 {
					other = append(other, t+":"+v)
				}
			}
		}
		sort.SliceStable(known, func(i, j int) bool {
			a, _, _ := strings.Cut(known[i], ":")
			b, _, _ := strings.Cut(known[j], ":")
			return prio[a] < prio[b]
		})
		k.Check(cell("conditions") == c21short(append(known, other...)), "%s: the conditions of %s are %v %v, the table shows %q", what, nm, known, other, cell("conditions"))
	}
	k.Check(len(seen) == len(want), "%s: the table has %d rows for %d objects", what, len(seen), len(want))
}

func c21short(l []string) string {
	switch {
	case len(l) == 0:
		return "<none>"
	case len(l) > 3:
		return fmt.Sprintf("%s +%d more", strings.Join(l[:3], ","), len(l)-3)
	}
	return strings.Join(l, ",")
}

// norm canonicalises numbers by a JSON trip.
func c21norm(o map[string]any) map[string]any {
	var out map[string]any
	d := json.NewDecoder(strings.NewReader(jsPlain(o)))
	d.UseNumber()
	if err := d.Decode(&out); err != nil {
		panic(err)
	}
	return out
}

func jsPlain(o any) string {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func c21canon(o map[string]any) string { return jsPlain(numCanon(restBare(c21norm(o)))) }

// numCanon writes numbers in one way.
func numCanon(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = numCanon(e)
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = numCanon(e)
		}
		return out
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return i
		}
		f, err := x.Float64()
		if err != nil {
			return string(x)
		}
		return f
	default:
		return v
	}
}

type c21key struct{ Kind, NS, Name string }

func (k c21key) String() string { return k.Kind + " " + k.NS + "/" + k.Name }

type c21model struct {
	objs map[c21key]map[string]any
	gvks map[string]schema.GroupVersionKind
}

func (m *c21model) diff(k *K, s *restServer) string {
	seen := map[c21key]bool{}
	for kind, g := range m.gvks {
		for _, o := range storeList(k, s.vc, g) {
			key := c21key{kind, o.GetNamespace(), o.GetName()}
			if seen[key] {
				return fmt.Sprintf("%s stored twice", key)
			}
			seen[key] = true
			want, ok := m.objs[key]
			if !ok {
				return fmt.Sprintf("%s must not exist, is %s", key, js(o.UnstructuredContent()))
			}
			if a, b := c21canon(want), c21canon(o.UnstructuredContent()); a != b {
				return fmt.Sprintf("%s must be\n  %s\nis\n  %s", key, a, b)
			}
		}
	}
	for key := range m.objs {
		if !seen[key] {
			return fmt.Sprintf("%s is missing from the store", key)
		}
	}
	return ""
}

// mergePatch is RFC 7386.
func c21merge(target, patch any) any {
	p, ok := patch.(map[string]any)
	if !ok {
		return patch
	}
	t, ok := target.(map[string]any)
	if !ok {
		t = map[string]any{}
	}
	out := map[string]any{}
	for k, v := range t {
		out[k] = v
	}
	for k, v := range p {
		if v == nil {
			delete(out, k)
		} else {
			out[k] = c21merge(out[k], v)
		}
	}
	return out
}

// jsonPatch is RFC 6902 (add, remove, replace, test, copy, move); an error means nothing changes.
func c21jsonPatch(doc any, ops []any) (any, error) {
	doc = deepCopyAny(doc)
	for _, op := range ops {
		m := op.(map[string]any)
		path := ptr(m["path"].(string))
		var err error
		switch m["op"] {
		case "add":
			doc, err = ptrSet(doc, path, deepCopyAny(m["value"]), "add")
		case "replace":
			if _, err = ptrGet(doc, path); err != nil {
				err = errLax // the usual library accepts some of these
				break
			}
			doc, err = ptrSet(doc, path, deepCopyAny(m["value"]), "replace")
		case "remove":
			doc, err = ptrSet(doc, path, nil, "remove")
		case "test":
			var v any
			if v, err = ptrGet(doc, path); err != nil && m["value"] == nil {
				err = errLax
			} else if err == nil && jsPlain(numCanon(v)) != jsPlain(numCanon(m["value"])) {
				err = fmt.Errorf("test failed")
			}
		case "copy", "move":
			from := ptr(m["from"].(string))
			var v any
			if v, err = ptrGet(doc, from); err != nil {
				err = errLax
				break
			}
			v = deepCopyAny(v)
			if m["op"] == "move" {
				if doc, err = ptrSet(doc, from, nil, "remove"); err != nil {
					break
				}
			}
			doc, err = ptrSet(doc, path, v, "add")
		}
		if err != nil {
			return nil, err
		}
	}
	return doc, nil
}

var errLax = errors.New("not specified")

func deepCopyAny(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = deepCopyAny(e)
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = deepCopyAny(e)
		}
		return out
	}
	return v
}

func ptr(p string) []string {
	if p == "" {
		return nil
	}
	out := strings.Split(p[1:], "/")
	for i := range out {
		out[i] = strings.ReplaceAll(strings.ReplaceAll(out[i], "~1", "/"), "~0", "~")
	}
	return out
}

func ptrEsc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
}

func ptrGet(doc any, path []string) (any, error) {
	for _, s := range path {
		switch x := doc.(type) {
		case map[string]any:
			v, ok := x[s]
			if !ok {
				return nil, fmt.Errorf("no %s", s)
			}
			doc = v
		case []any:
			i, err := strconv.Atoi(s)
			if err != nil || i < 0 || i >= len(x) {
				return nil, fmt.Errorf("no %s", s)
			}
			doc = x[i]
		default:
			return nil, fmt.Errorf("no %s", s)
		}
	}
	return doc, nil
}

func ptrSet(doc any, path []string, v any, op string) (any, error) {
	if len(path) == 0 {
		return nil, fmt.Errorf("whole document")
	}
	s := path[0]
	switch x := doc.(type) {
	case map[string]any:
		old, has := x[s]
		if len(path) > 1 {
			if !has {
				return nil, fmt.Errorf("no %s", s)
			}
			n, err := ptrSet(old, path[1:], v, op)
			if err != nil {
				return nil, err
			}
			x[s] = n
			return x, nil
		}
		if !has && op != "add" {
			return nil, fmt.Errorf("no %s", s)
		}
		if op == "remove" {
			delete(x, s)
		} else {
			x[s] = v
		}
		return x, nil
	case []any:
		if len(path) == 1 && s == "-" && op == "add" {
			return append(x, v), nil
		}
		i, err := strconv.Atoi(s)
		if err != nil || i < 0 || i > len(x) || (i == len(x) && (op != "add" || len(path) > 1)) {
			return nil, fmt.Errorf("no %s", s)
		}
		if len(path) > 1 {
			n, err := ptrSet(x[i], path[1:], v, op)
			if err != nil {
				return nil, err
			}
			x[i] = n
			return x, nil
		}
		switch op {
		case "add":
			return slices.Insert(x, i, v), nil
		case "replace":
			x[i] = v
		case "remove":
			return slices.Delete(x, i, i+1), nil
		}
		return x, nil
	}
	return nil, fmt.Errorf("not a container")
}

// paths lists JSON pointers into a document.
func c21paths(pre string, v any, out *[]string) {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			p := pre + "/" + ptrEsc(k)
			*out = append(*out, p)
			c21paths(p, e, out)
		}
	case []any:
		for i, e := range x {
			p := pre + "/" + strconv.Itoa(i)
			*out = append(*out, p)
			c21paths(p, e, out)
		}
	}
}

func c21genJSONPatch(r *rand.Rand, cur map[string]any) []any {
	var paths []string
	body := map[string]any{}
	for k, v := range cur {
		if k != "metadata" && k != "kind" && k != "apiVersion" {
			body[k] = v
		}
	}
	c21paths("", body, &paths)
	sort.Strings(paths)
	any1 := func() string {
		if len(paths) > 0 && r.Intn(8) > 0 {
			return pick(r, paths...)
		}
		return pick(r, "/nope", "/nope/deep", "/data", "/metadata/labels/app", "/metadata/annotations/none", "/spec/a")
	}
	ops := []any{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		p := any1()
		switch r.Intn(8) {
		case 0, 1:
			if strings.HasPrefix(p, "/metadata") {
				continue
			}
			if r.Intn(3) == 0 {
				p += "/" + ptrEsc(pick(r, append(c21fields, "-", "0", "1")...))
			}
			ops = append(ops, map[string]any{"op": "add", "path": p, "value": c21val(r, 2)})
		case 2:
			v := c21val(r, 2)
			if strings.HasPrefix(p, "/metadata") {
				v = pick(r, "a", "b")
			}
			ops = append(ops, map[string]any{"op": "replace", "path": p, "value": v})
		case 3:
			ops = append(ops, map[string]any{"op": "remove", "path": p})
		case 4:
			v, err := ptrGet(cur, ptr(p))
			if err != nil || r.Intn(4) == 0 {
				v = c21val(r, 1)
			}
			ops = append(ops, map[string]any{"op": "test", "path": p, "value": v})
		case 5:
			ops = append(ops, map[string]any{"op": "copy", "from": p, "path": "/" + pick(r, "data", "copy", "x")})
		case 6:
			to := "/" + pick(r, "data", "moved", "x")
			if !strings.HasPrefix(to, p) {
				ops = append(ops, map[string]any{"op": "move", "from": p, "path": to})
			}
		case 7:
			ops = append(ops, map[string]any{"op": "add", "path": "/fresh" + strconv.Itoa(r.Intn(3)), "value": c21val(r, 2)})
		}
	}
	return ops
}

func c21genMerge(r *rand.Rand, cur any, depth int) map[string]any {
	out := map[string]any{}
	m, _ := cur.(map[string]any)
	keys := sortedKeys(m)
	for i := 1 + r.Intn(3); i > 0; i-- {
		key := pick(r, "spec", "data", "x", "a", "fresh")
		if len(keys) > 0 && r.Intn(3) > 0 {
			key = pick(r, keys...)
		}
		if depth == 0 && (key == "metadata" || key == "kind" || key == "apiVersion" || key == "items") {
			continue
		}
		switch r.Intn(3) {
		case 0:
			out[key] = nil
		case 1:
			v := c21val(r, 2)
			out[key] = v
		case 2:
			if _, ok := m[key].(map[string]any); ok && depth < 4 {
				out[key] = c21genMerge(r, m[key], depth+1)
			} else {
				out[key] = c21val(r, 1)
			}
		}
	}
	if depth == 0 && r.Intn(3) == 0 {
		out["metadata"] = map[string]any{"labels": map[string]any{pick(r, "app", "tier"): pick[any](r, "a", "b", nil)}}
	}
	return out
}

// dropNulls says whether a document holds nulls.
func hasNull(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case map[string]any:
		for _, e := range x {
			if hasNull(e) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if hasNull(e) {
				return true
			}
		}
	}
	return false
}

func c21history(k *K) {
	s, err := newREST("http", logr.Discard())
	k.Check(err == nil, "the API server does not start: %v", err)
	defer s.stop()
	r := k.R
	m := &c21model{objs: map[c21key]map[string]any{}, gvks: map[string]schema.GroupVersionKind{}}
	op1, op2 := "op", pick(r, "other", "op-2", "a.b")
	kinds := []string{"Alpha", "Beta", "AlphaSet", "Other/Alpha"}
	for _, kd := range kinds {
		op, kind := op1, kd
		if rest, ok := strings.CutPrefix(kd, "Other/"); ok {
			op, kind = op2, rest
		}
		m.gvks[kd] = viewv1a1.GroupVersionKind(op, kind)
	}
	var all []schema.GroupVersionKind
	for _, kd := range kinds {
		all = append(all, m.gvks[kd])
	}
	k.Check(s.srv.RegisterGVKs(all) == nil, "registration fails")
	nss, names := []string{"n1", "n2", "default"}, []string{"x", "y", "z", "x.y", "a-b"}
	ctx := context.Background()
	n := k.N(2500, 6000)
	var crowd c21key
	for step := 0; step < n; step++ {
		key := c21key{pick(r, kinds...), pick(r, nss...), pick(r, names...)}
		if x := step % 250; x > 40 && x < 65 && crowd.Kind != "" {
			key.Kind, key.NS = crowd.Kind, crowd.NS
		}
		g := m.gvks[key.Kind]
		cur, exists := m.objs[key]
		if !exists && r.Intn(3) == 0 { // prefer what exists
			for kk := range m.objs {
				_ = kk
			}
			ks := make([]c21key, 0, len(m.objs))
			for kk := range m.objs {
				ks = append(ks, kk)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
			if len(ks) > 0 {
				key = pick(r, ks...)
				g = m.gvks[key.Kind]
				cur, exists = m.objs[key]
			}
		}
		body := c21content(r)
		body["apiVersion"], body["kind"], body["metadata"] = g.GroupVersion().String(), g.Kind, c21meta(r, key.NS, key.Name)
		full := deepCopyAny(body).(map[string]any)
		path := restPath(g, key.NS, key.Name)
		coll := restPath(g, key.NS, "")
		dry := r.Intn(12) == 0
		q := ""
		if dry {
			q = "?dryRun=All"
		}
		ctype := "application/json"
		what := ""
		do := func(method, p, ct string, b any) reply {
			what = fmt.Sprintf("step %d: %s %s %s %s", step, method, p, ct, js(b))
			k.Log("%s", what)
			rep := s.do(method, p, "", ct, b, 20*time.Second)
			k.Check(rep.Err == nil, "%s: %v", what, rep.Err)
			k.Check(rep.Code < 500, "%s: the server fails: %v", what, rep)
			k.Eval(1)
			return rep
		}
		encode := func(b map[string]any) any {
			if r.Intn(10) == 0 {
				y, err := yaml.Marshal(b)
				if err == nil {
					ctype = "application/yaml"
					return y
				}
			}
			return b
		}
		expect := func(rep reply, codes ...int) {
			k.Check(slices.Contains(codes, rep.Code), "%s (object exists: %v): must be answered %v, is %v", what, exists, codes, rep)
			kind := "success"
			if rep.Code >= 400 {
				kind = "error"
				k.Check(rep.Obj["kind"] == "Status", "%s: no status in %v", what, rep)
			}
			k.Count(fmt.Sprintf("http_%d_%s", rep.Code, kind), 1)
		}
		// tabular checks that the same read in tabular form, as kubectl does it, shows the same objects.
		tabular := func(p string, want map[c21key]bool) {
			t := *s
			t.accept = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1beta1;g=meta.k8s.io,application/json"
			rep := t.do("GET", p, "", "", nil, 20*time.Second)
			k.Check(rep.Err == nil && rep.Code == 200 && rep.Obj["kind"] == "Table", "%s in tabular form: %v", what, rep)
			c21table(k, what, rep.Obj, m, want)
			again := t.do("GET", p, "", "", nil, 20*time.Second)
			if len(want) == 1 {
				k.Check(js(again.Obj["rows"]) == js(rep.Obj["rows"]), "%s in tabular form is answered %s, then %s", what, js(rep.Obj["rows"]), js(again.Obj["rows"]))
			}
			k.Count("tables", 1)
		}
		same := func(got, want map[string]any) {
			a, b := c21canon(got), c21canon(want)
			k.Check(a == b, "%s: the reply must be\n  %s\nis\n  %s", what, b, a)
		}
		verb := ""
		x := r.Intn(24)
		switch step % 250 {
		case 40: // a crowded collection
			for i := 5 + r.Intn(80); i >= 0; i-- {
				kk := c21key{key.Kind, key.NS, fmt.Sprintf("b%d", i)}
				b := c21content(r)
				b["apiVersion"], b["kind"], b["metadata"] = g.GroupVersion().String(), g.Kind, c21meta(r, kk.NS, kk.Name)
				o := object.New()
				o.SetUnstructuredContent(deepCopyAny(b).(map[string]any))
				k.Check(s.cl.Create(ctx, o) == nil, "store create of %s", kk)
				m.objs[kk] = b
			}
			crowd = key
			k.Max("objects in a collection", len(m.objs))
		case 45, 50:
			x = 3 // list it
		case 55, 60:
			x = 19 // delete (a part of) it
		case 65: // and the rest
			for kk := range m.objs {
				if strings.HasPrefix(kk.Name, "b") {
					o := object.New()
					o.SetGroupVersionKind(m.gvks[kk.Kind])
					o.SetNamespace(kk.NS)
					o.SetName(kk.Name)
					k.Check(s.cl.Delete(ctx, o) == nil, "store delete of %s", kk)
					delete(m.objs, kk)
				}
			}
			cur, exists = m.objs[key]
		}
		switch x {
		case 0, 1, 2: // get
			verb = "get"
			rep := do("GET", path, "", nil)
			if exists {
				expect(rep, 200)
				same(rep.Obj, cur)
				if r.Intn(4) == 0 {
					tabular(path, map[c21key]bool{key: true})
				}
			} else {
				expect(rep, 404)
			}
		case 3, 4: // list
			verb = "list"
			p := coll
			ns := key.NS
			if r.Intn(3) == 0 {
				ns, p = "", restPath(g, "", "")
			}
			want, sel := c21select(r, m, key, ns)
			rep := do("GET", p+sel, "", nil)
			expect(rep, 200)
			got := map[string]string{}
			items, _ := rep.Obj["items"].([]any)
			k.Check(rep.Obj["kind"] == g.Kind+"List", "%s: the list is a %v", what, rep.Obj["kind"])
			for _, it := range items {
				o := it.(map[string]any)
				md := o["metadata"].(map[string]any)
				nm := fmt.Sprintf("%v/%v", md["namespace"], md["name"])
				k.Check(got[nm] == "", "%s: %s listed twice", what, nm)
				got[nm] = c21canon(o)
			}
			for kk := range want {
				nm := kk.NS + "/" + kk.Name
				k.Check(got[nm] == c21canon(m.objs[kk]), "%s: %s must be listed as\n  %s\nis\n  %s", what, nm, c21canon(m.objs[kk]), got[nm])
			}
			k.Check(len(got) == len(want), "%s: lists %d objects instead of %d: %v", what, len(got), len(want), sortedKeys(got))
			if r.Intn(4) == 0 {
				tabular(p+sel, want)
			}
		case 5, 6, 7: // create
			verb = "create"
			if r.Intn(4) == 0 {
				delete(body["metadata"].(map[string]any), "namespace")
			}
			bad := ""
			switch r.Intn(14) {
			case 0:
				bad = "namespace"
				body["metadata"].(map[string]any)["namespace"] = "elsewhere"
			case 1:
				bad = "kind"
				body["kind"] = "Gamma"
			case 2:
				bad = "group"
				body["apiVersion"] = "apps/v1"
			case 3:
				bad = "name"
				delete(body["metadata"].(map[string]any), "name")
			}
			rep := do("POST", coll+q, ctype, encode(body))
			switch {
			case bad != "":
				verb += "-bad-" + bad
				k.Check(rep.Code >= 400 && rep.Code < 500, "%s: must be refused, is answered %v", what, rep)
			default: // an existing object is replaced (fixed by the test suite)
				if exists {
					verb += "-existing"
				}
				expect(rep, 201)
				same(rep.Obj, full)
				if !dry {
					m.objs[key] = full
				}
			}
		case 8, 9, 10: // update
			verb = "update"
			if r.Intn(4) == 0 {
				delete(body["metadata"].(map[string]any), "namespace")
			}
			bad := ""
			switch r.Intn(14) {
			case 0:
				bad = "namespace"
				body["metadata"].(map[string]any)["namespace"] = "elsewhere"
			case 1:
				bad = "name"
				body["metadata"].(map[string]any)["name"] = pick(r, "x", "other")
				if body["metadata"].(map[string]any)["name"] == key.Name {
					body["metadata"].(map[string]any)["name"] = "other"
				}
			case 2:
				bad = "kind"
				body["kind"] = "Gamma"
			}
			rep := do("PUT", path+q, ctype, encode(body))
			switch {
			case bad != "":
				verb += "-bad-" + bad
				k.Check(rep.Code >= 400 && rep.Code < 500, "%s: must be refused, is answered %v", what, rep)
			case !exists:
				expect(rep, 404)
			default:
				expect(rep, 200)
				same(rep.Obj, full)
				if !dry {
					m.objs[key] = full
				}
			}
		case 11, 12: // JSON patch
			verb = "json-patch"
			ops := c21genJSONPatch(r, cur)
			rep := do("PATCH", path+q, "application/json-patch+json", ops)
			if !exists {
				expect(rep, 404)
				break
			}
			want, perr := c21jsonPatch(c21norm(cur), c21norm(map[string]any{"o": ops})["o"].([]any))
			if errors.Is(perr, errLax) && rep.Code == 200 {
				verb += "-lax"
				if !dry {
					m.objs[key] = restBare(c21norm(rep.Obj))
				}
				break
			}
			if perr != nil {
				verb += "-bad"
				k.Check(rep.Code >= 400 && rep.Code < 500, "%s on %s: must be refused (%v), is answered %v", what, js(cur), perr, rep)
				break
			}
			w := want.(map[string]any)
			expect(rep, 200)
			same(rep.Obj, w)
			if !dry {
				m.objs[key] = w
			}
		case 13, 14, 15: // merge patch
			verb = "merge-patch"
			p := c21genMerge(r, cur, 0)
			ct := "application/merge-patch+json"
			if r.Intn(4) == 0 {
				ct, verb = "application/strategic-merge-patch+json", "strategic-patch"
			}
			bad := false
			if r.Intn(10) == 0 && exists {
				bad = true
				p["metadata"] = map[string]any{pick(r, "name", "namespace"): pick(r, "x2", "n9")}
			}
			rep := do("PATCH", path+q, ct, p)
			switch {
			case !exists:
				expect(rep, 404)
			case bad:
				verb += "-bad"
				k.Check(rep.Code >= 400 && rep.Code < 500, "%s: must be refused, is answered %v", what, rep)
			case verb == "strategic-patch" && rep.Code >= 400:
				verb += "-refused"
			default:
				w := c21merge(c21norm(cur), any(c21norm(p))).(map[string]any)
				expect(rep, 200)
				same(rep.Obj, w)
				if !dry {
					m.objs[key] = w
				}
			}
		case 16: // apply
			verb = "apply"
			fm := pick(r, "m1", "m2")
			p := path + "?fieldManager=" + fm + "&force=true"
			if dry {
				p += "&dryRun=All"
			}
			rep := do("PATCH", p, "application/apply-patch+yaml", body)
			if !exists {
				expect(rep, 201)
				same(rep.Obj, full)
				if !dry {
					m.objs[key] = full
				}
				break
			}
			expect(rep, 200)
			// what is applied is there, and nothing that was not applied by the same manager is lost
			if d := c21applied(body, rep.Obj); d != "" {
				k.Fail("%s on %s: %s in %v", what, js(cur), d, rep)
			}
			if !dry {
				m.objs[key] = restBare(c21norm(rep.Obj))
			}
		case 17, 18: // delete
			verb = "delete"
			var b any
			pre := ""
			if exists && r.Intn(4) == 0 {
				got := s.do("GET", path, "", "", nil, 20*time.Second)
				uid, _ := got.Obj["metadata"].(map[string]any)["uid"].(string)
				k.Check(uid != "", "object without a UID: %v", got)
				pre = "match"
				if r.Intn(2) == 0 {
					uid, pre = "00000000-0000-0000-0000-000000000000", "mismatch"
				}
				b = map[string]any{"kind": "DeleteOptions", "apiVersion": "v1", "preconditions": map[string]any{"uid": uid}}
				if dry { // the query is ignored if there is a body
					b.(map[string]any)["dryRun"] = []any{"All"}
				}
			}
			rep := do("DELETE", path+q, ctype, b)
			switch {
			case !exists:
				expect(rep, 404)
			case pre == "mismatch":
				verb += "-mismatch"
				expect(rep, 409)
			default:
				expect(rep, 200)
				if !dry {
					delete(m.objs, key)
				}
			}
		case 19: // deletecollection
			if step%250 != 55 && step%250 != 60 && r.Intn(2) > 0 {
				continue
			}
			verb = "deletecollection"
			want, sel := c21select(r, m, key, key.NS)
			if dry {
				if sel == "" {
					sel = "?dryRun=All"
				} else {
					sel += "&dryRun=All"
				}
			}
			rep := do("DELETE", coll+sel, "", nil)
			expect(rep, 200)
			if !dry {
				for kk := range want {
					delete(m.objs, kk)
				}
			}
		case 20: // malformed
			verb = "malformed"
			b := pick(r, "{", "", "[]", "null", "\"x\"", "{\"metadata\":", "{\"metadata\":{\"name\":5}}", "{\"a\":1}{}", "\x00\x01")
			method, p, ct := "POST", coll, ctype
			switch r.Intn(4) {
			case 0:
				method, p = "PUT", path
			case 1:
				method, p, ct = "PATCH", path, "application/merge-patch+json"
			case 2:
				method, p, ct = "PATCH", path, "application/json-patch+json"
			}
			if method == "PATCH" && (b == "{\"a\":1}{}" || b == "[]" || b == "null") {
				break
			}
			rep := do(method, p, ct, b)
			k.Check(rep.Code >= 400 && rep.Code < 500, "%s: must be refused, is answered %v", what, rep)
		case 21: // what is not served
			verb = "unserved"
			p := pick(r, "/apis/"+g.Group+"/v1alpha1/namespaces/n1/gamma", "/apis/"+g.Group+"/v1/namespaces/n1/alpha", "/apis/none.view.dcontroller.io/v1alpha1/namespaces/n1/alpha/x",
				"/apis/apps/v1/namespaces/n1/deployments", "/api/v1/namespaces/n1/pods", "/api/v1/namespaces/n1/secrets/x", path+"/status", path+"/scale", "/apis/view.dcontroller.io/v1alpha1/namespaces/n1/alpha",
				restPath(g, key.NS, "")+"s", "/apis/"+g.Group+"/v1alpha1/namespaces/n1/"+g.Kind, "/apis/"+g.Group+"/v1alpha1/"+strings.ToLower(g.Kind)+"/"+key.Name)
			method := pick(r, "GET", "DELETE", "PUT", "POST")
			switch r.Intn(6) {
			case 0: // verbs that do not apply to what is addressed
				p, method = path, "POST"
			case 1:
				p, method = coll, "PUT"
			case 2:
				p, method = coll, "PATCH"
				ctype = "application/merge-patch+json"
			}
			var b any
			if method != "GET" && method != "DELETE" {
				b = body
			}
			rep := s.do(method, p, "", ctype, b, 20*time.Second)
			what = fmt.Sprintf("step %d: %s %s", step, method, p)
			k.Eval(1)
			k.Check(rep.Err == nil && (rep.Code == 404 || rep.Code == 405 || rep.Code == 400), "%s: must not be served, is answered %v", what, rep)
		default: // the store is written directly
			verb = "store"
			o := object.New()
			o.SetUnstructuredContent(deepCopyAny(full).(map[string]any))
			switch r.Intn(4) {
			case 0:
				err := s.cl.Delete(ctx, o)
				k.Check((err == nil) == exists && client.IgnoreNotFound(err) == nil, "store delete of %s: %v", key, err)
				delete(m.objs, key)
			case 1:
				err := s.cl.Update(ctx, o)
				k.Check((err == nil) == exists, "store update of %s: %v", key, err)
				if exists {
					m.objs[key] = full
				}
			default:
				k.Check(s.cl.Create(ctx, o) == nil, "store create of %s", key)
				m.objs[key] = full
			}
			what = fmt.Sprintf("step %d: direct write of %s", step, key)
			k.Log("%s", what)
		}
		k.Count("verb_"+verb, 1)
		k.Nontrivial("%s %v %v %d", verb, exists, dry, len(m.objs))
		if d := m.diff(k, s); d != "" {
			k.Fail("%s (object existed: %v, as %s): afterwards %s", what, exists, js(cur), d)
		}
	}
}

// c21applied tells what of an applied configuration is not in the object.
func c21applied(conf, obj map[string]any) string {
	conf, obj = restBare(c21norm(conf)), restBare(c21norm(obj))
	var rec func(p string, a, b any) string
	rec = func(p string, a, b any) string {
		am, ok := a.(map[string]any)
		bm, ok2 := b.(map[string]any)
		if ok && ok2 {
			for kk, v := range am {
				w, has := bm[kk]
				if !has {
					return p + "." + kk + " is missing"
				}
				if d := rec(p+"."+kk, v, w); d != "" {
					return d
				}
			}
			return ""
		}
		if ok && len(am) == 0 && b == nil {
			return "" // structured-merge-diff makes null of a map it empties
		}
		if jsPlain(numCanon(a)) != jsPlain(numCanon(b)) {
			return fmt.Sprintf("%s must be %s", p, jsPlain(a))
		}
		return ""
	}
	return rec("", conf, obj)
}

// c21select makes selectors and tells what they select.
func c21select(r *rand.Rand, m *c21model, key c21key, ns string) (map[c21key]bool, string) {
	want := map[c21key]bool{}
	lsel, fsel := "", ""
	pred := func(kk c21key, o map[string]any) bool { return true }
	labelsOf := func(o map[string]any) map[string]any {
		l, _ := o["metadata"].(map[string]any)["labels"].(map[string]any)
		return l
	}
	switch r.Intn(9) {
	case 0:
		lsel = "app=a"
		pred = func(_ c21key, o map[string]any) bool { return labelsOf(o)["app"] == "a" }
	case 1:
		lsel = "app!=a"
		pred = func(_ c21key, o map[string]any) bool { return labelsOf(o)["app"] != "a" }
	case 2:
		lsel = "tier"
		pred = func(_ c21key, o map[string]any) bool { _, ok := labelsOf(o)["tier"]; return ok }
	case 3:
		lsel = "!tier,app in (a,b)"
		pred = func(_ c21key, o map[string]any) bool {
			_, ok := labelsOf(o)["tier"]
			return !ok && (labelsOf(o)["app"] == "a" || labelsOf(o)["app"] == "b")
		}
	case 4:
		lsel = "app notin (a),x.io/y="
		pred = func(_ c21key, o map[string]any) bool {
			v, ok := labelsOf(o)["x.io/y"]
			return labelsOf(o)["app"] != "a" && ok && v == ""
		}
	}
	pred2 := func(kk c21key) bool { return true }
	switch r.Intn(6) {
	case 0:
		fsel = "metadata.name=" + key.Name
		pred2 = func(kk c21key) bool { return kk.Name == key.Name }
	case 1:
		fsel = "metadata.name!=" + key.Name
		pred2 = func(kk c21key) bool { return kk.Name != key.Name }
	case 2:
		fsel = "metadata.namespace=n1"
		pred2 = func(kk c21key) bool { return kk.NS == "n1" }
	}
	for kk, o := range m.objs {
		if kk.Kind == key.Kind && (ns == "" || ns == kk.NS) && pred(kk, o) && pred2(kk) {
			want[kk] = true
		}
	}
	q := []string{}
	if lsel != "" {
		q = append(q, "labelSelector="+qesc(lsel))
	}
	if fsel != "" {
		q = append(q, "fieldSelector="+qesc(fsel))
	}
	if len(q) == 0 {
		return want, ""
	}
	return want, "?" + strings.Join(q, "&")
}

func qesc(s string) string { return url.QueryEscape(s) }

// c21stream is a watch request that is open.
type c21stream struct {
	what   string
	sel    func(o object.Object) bool
	gvk    schema.GroupVersionKind
	mu     sync.Mutex
	state  map[string]string
	events int
	bad    string
	ended  bool
	cancel context.CancelFunc
}

func (w *c21stream) open(s *restServer, path string) error {
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel, w.state = cancel, map[string]string{}
	req, err := http.NewRequestWithContext(ctx, "GET", s.base+path, nil)
	if err != nil {
		return err
	}
	req.Header.Set("Accept", "application/json")
	resp, err := s.hc.Do(req)
	if err != nil {
		return err
	}
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		return fmt.Errorf("%s: %d %s", path, resp.StatusCode, b)
	}
	go func() {
		defer resp.Body.Close()
		d := json.NewDecoder(resp.Body)
		d.UseNumber()
		for {
			var e struct {
				Type   string         `json:"type"`
				Object map[string]any `json:"object"`
			}
			err := d.Decode(&e)
			w.mu.Lock()
			if err != nil {
				w.ended = true
				w.mu.Unlock()
				return
			}
			w.events++
			o := object.New()
			o.SetUnstructuredContent(e.Object)
			key := o.GetNamespace() + "/" + o.GetName()
			_, has := w.state[key]
			switch {
			case o.GroupVersionKind() != w.gvk:
				w.bad = fmt.Sprintf("%s event of a %v", e.Type, o.GroupVersionKind())
			case e.Type == "ADDED" && has:
				w.bad = key + " added twice"
			case e.Type == "DELETED" && !has:
				w.bad = key + " deleted but never announced"
			case e.Type == "ADDED" || e.Type == "MODIFIED":
				if !w.sel(o) {
					w.bad = fmt.Sprintf("%s event for an object that is not selected: %s", e.Type, js(e.Object))
				}
				w.state[key] = c21canon(e.Object)
			case e.Type == "DELETED":
				delete(w.state, key)
			default:
				w.bad = fmt.Sprintf("event %s: %s", e.Type, js(e.Object))
			}
			w.mu.Unlock()
		}
	}()
	return nil
}

func c21watch(k *K) {
	s, err := newREST("http", logr.Discard())
	k.Check(err == nil, "the API server does not start: %v", err)
	defer s.stop()
	r := k.R
	gvks := []schema.GroupVersionKind{viewv1a1.GroupVersionKind("op", "Alpha"), viewv1a1.GroupVersionKind("op", "AlphaList"), viewv1a1.GroupVersionKind("op2", "Alpha")}
	if r.Intn(2) == 0 {
		gvks[1].Kind = "Beta"
	}
	k.Check(s.srv.RegisterGVKs(gvks) == nil, "registration fails")
	nss, names := []string{"n1", "n2"}, []string{"x", "y", "z"}
	var streams []*c21stream
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 4; i++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for j := 0; ; j++ {
				select {
				case <-stop:
					return
				default:
				}
				g, ns, nm := pick(wr, gvks...), pick(wr, nss...), pick(wr, names...)
				body := map[string]any{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": c21meta(wr, ns, nm), "v": int64(j)}
				switch wr.Intn(6) {
				case 0:
					s.do("POST", restPath(g, ns, ""), "", "application/json", body, 10*time.Second)
				case 1:
					s.do("PUT", restPath(g, ns, nm), "", "application/json", body, 10*time.Second)
				case 2:
					s.do("DELETE", restPath(g, ns, nm), "", "", nil, 10*time.Second)
				case 3:
					s.do("PATCH", restPath(g, ns, nm), "", "application/merge-patch+json", map[string]any{"w": j, "metadata": map[string]any{"labels": map[string]any{"app": pick[any](wr, "a", "b", nil)}}}, 10*time.Second)
				default:
					o := object.New()
					o.SetUnstructuredContent(body)
					if wr.Intn(3) == 0 {
						s.cl.Delete(context.Background(), o) //nolint:errcheck
					} else {
						s.cl.Create(context.Background(), o) //nolint:errcheck
					}
				}
				if wr.Intn(10) == 0 {
					time.Sleep(time.Duration(wr.Intn(3)) * time.Millisecond)
				}
			}
		}()
	}
	for i := 0; i < k.N(12, 40); i++ {
		w := &c21stream{gvk: pick(r, gvks...)}
		ns := pick(r, "", "n1", "n2")
		path := restPath(w.gvk, ns, "")
		q := []string{}
		sels := []func(o object.Object) bool{func(o object.Object) bool { return ns == "" || o.GetNamespace() == ns }}
		if r.Intn(4) == 0 {
			path = strings.Replace(path, "/v1alpha1/", "/v1alpha1/watch/", 1)
		} else {
			q = append(q, pick(r, "watch=1", "watch=true"))
		}
		if r.Intn(3) == 0 {
			q = append(q, "labelSelector=app%3Da")
			sels = append(sels, func(o object.Object) bool { return o.GetLabels()["app"] == "a" })
		}
		if r.Intn(4) == 0 {
			nm := pick(r, names...)
			q = append(q, "fieldSelector=metadata.name%3D"+nm)
			sels = append(sels, func(o object.Object) bool { return o.GetName() == nm })
		}
		if r.Intn(4) == 0 {
			q = append(q, "resourceVersion=0")
		}
		if r.Intn(4) == 0 {
			q = append(q, "allowWatchBookmarks=true")
		}
		w.sel = func(o object.Object) bool {
			for _, f := range sels {
				if !f(o) {
					return false
				}
			}
			return true
		}
		w.what = path + "?" + strings.Join(q, "&")
		k.Log("open %s", w.what)
		k.Check(w.open(s, w.what) == nil, "%s: cannot watch: %v", w.what, err)
		streams = append(streams, w)
		k.Nontrivial("watch %s", w.what)
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		if r.Intn(5) == 0 { // some clients leave
			l := streams[r.Intn(len(streams))]
			l.cancel()
			l.ended = true
			k.Count("watches_left", 1)
		}
	}
	time.Sleep(time.Duration(50+r.Intn(100)) * time.Millisecond)
	close(stop)
	wg.Wait()
	for _, w := range streams {
		w.mu.Lock()
		left := w.ended
		w.mu.Unlock()
		if left {
			continue
		}
		want := map[string]string{}
		for _, o := range storeList(k, s.vc, w.gvk) {
			if w.sel(o) {
				want[o.GetNamespace()+"/"+o.GetName()] = c21canon(o.UnstructuredContent())
			}
		}
		var got map[string]string
		for i := 0; i < 600; i++ {
			w.mu.Lock()
			got = maps.Clone(w.state)
			bad := w.bad
			ended := w.ended
			w.mu.Unlock()
			k.Check(bad == "", "watch %s: %s", w.what, bad)
			k.Check(!ended, "watch %s: the stream ended", w.what)
			if maps.Equal(got, want) {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		if !maps.Equal(got, want) {
			k.Fail("watch %s: after all writes the replayed stream is\n  %s\nbut the store holds\n  %s", w.what, js(got), js(want))
		}
		k.Eval(1)
		k.Count("watch_events", w.events)
	}
	for _, w := range streams {
		w.cancel()
	}
}

// c21writers: concurrent REST clients and a store client change the same objects.
func c21writers(k *K) {
	s, err := newREST("http", logr.Discard())
	k.Check(err == nil, "the API server does not start: %v", err)
	defer s.stop()
	r := k.R
	g := viewv1a1.GroupVersionKind("op", "Alpha")
	k.Check(s.srv.RegisterGVKs([]schema.GroupVersionKind{g}) == nil, "registration fails")
	ctx := context.Background()
	const W = 6
	for round := 0; round < k.N(6, 20); round++ {
		nm := fmt.Sprintf("o%d", round)
		path, coll := restPath(g, "n", nm), restPath(g, "n", "")
		body := func(w int) map[string]any {
			return map[string]any{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": map[string]any{"name": nm, "namespace": "n"}, "creator": w}
		}
		par := func(fn func(w int, r *rand.Rand)) {
			var wg sync.WaitGroup
			for w := 0; w < W; w++ {
				wg.Add(1)
				wr := rand.New(rand.NewSource(r.Int63()))
				go func() { defer wg.Done(); fn(w, wr) }()
			}
			wg.Wait()
		}
		get := func() map[string]any {
			o := object.NewViewObject("op", "Alpha")
			if err := s.cl.Get(ctx, client.ObjectKey{Namespace: "n", Name: nm}, o); err != nil {
				return nil
			}
			return c21norm(o.UnstructuredContent())
		}
		num := func(o map[string]any, f string) int {
			n, _ := o[f].(json.Number)
			i, _ := n.Int64()
			return int(i)
		}
		// concurrent creations replace each other, one of them is stored
		var mu sync.Mutex
		won := []int{}
		par(func(w int, _ *rand.Rand) {
			rep := s.do("POST", coll, "", "application/json", body(w), 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if rep.Code == 201 {
				won = append(won, w)
			} else {
				k.Report("concurrent creation of %s is answered %v", nm, rep)
			}
		})
		k.Check(len(won) == W && get() != nil, "%d concurrent creations of %s succeed, stored: %s", len(won), nm, js(get()))
		k.Eval(1)
		// concurrent applies of a missing object are merged
		s.do("DELETE", path, "", "", nil, 20*time.Second)
		par(func(w int, _ *rand.Rand) {
			b := body(0)
			delete(b, "creator")
			b[fmt.Sprintf("a%d", w)] = w + 1
			rep := s.do("PATCH", fmt.Sprintf("%s?fieldManager=a%d&force=true", path, w), "", "application/apply-patch+yaml", b, 20*time.Second)
			if rep.Code != 200 && rep.Code != 201 {
				k.Report("concurrent apply of %s is answered %v", nm, rep)
			}
		})
		for w := 0; w < W; w++ {
			k.Check(num(get(), fmt.Sprintf("a%d", w)) == w+1, "the apply of writer %d succeeded but its field is lost: %s", w, js(get()))
		}
		k.Eval(1)
		// concurrent changes of different fields, and a guarded counter
		n := k.N(25, 60)
		succ := 0
		par(func(w int, r *rand.Rand) {
			f := fmt.Sprintf("f%d", w)
			for i := 1; i <= n; i++ {
				var rep reply
				switch {
				case w == 0: // through the store
					o := object.NewViewObject("op", "Alpha")
					object.SetName(o, "n", nm)
					p, _ := json.Marshal(map[string]any{f: i})
					if err := s.cl.Patch(ctx, o, client.RawPatch(types.MergePatchType, p)); err != nil {
						k.Report("store patch: %v", err)
					}
					continue
				case w == 1: // a counter that may be changed only if it is as seen
					cur := num(get(), "counter")
					ops := []any{map[string]any{"op": "test", "path": "/counter", "value": cur}, map[string]any{"op": "replace", "path": "/counter", "value": cur + 1}}
					if cur == 0 {
						ops = []any{map[string]any{"op": "add", "path": "/counter", "value": 1}}
					}
					rep = s.do("PATCH", path, "", "application/json-patch+json", ops, 20*time.Second)
				case w == 2 || w == 3:
					ops := []any{map[string]any{"op": "add", "path": "/" + f, "value": i}}
					rep = s.do("PATCH", path, "", "application/json-patch+json", ops, 20*time.Second)
				case w == 4:
					b := body(0)
					delete(b, "creator")
					b[f] = i
					rep = s.do("PATCH", path+"?fieldManager=m4&force=true", "", "application/apply-patch+yaml", b, 20*time.Second)
				default:
					rep = s.do("PATCH", path, "", "application/merge-patch+json", map[string]any{f: i}, 20*time.Second)
				}
				if rep.Code != 200 {
					k.Report("concurrent patch by writer %d is answered %v", w, rep)
					return
				}
				if w == 1 {
					mu.Lock()
					succ++
					mu.Unlock()
				}
				if r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(2)) * time.Millisecond)
				}
			}
		})
		o := get()
		for w := 0; w < W; w++ {
			if w == 1 {
				k.Check(num(o, "counter") == succ, "%d increments succeeded but the counter is %d", succ, num(o, "counter"))
				continue
			}
			k.Check(num(o, fmt.Sprintf("f%d", w)) == n, "the last write of writer %d (%d) is lost: %s", w, n, js(o))
		}
		k.Count("concurrent_patches", W*n)
		k.Eval(W * n)
		// of concurrent deletions exactly one succeeds
		del := 0
		par(func(w int, _ *rand.Rand) {
			rep := s.do("DELETE", path, "", "", nil, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if rep.Code == 200 {
				del++
			} else if rep.Code != 404 {
				k.Report("concurrent deletion of %s is answered %v", nm, rep)
			}
		})
		k.Check(del == 1 && get() == nil, "%d concurrent deletions of %s succeed", del, nm)
		k.Eval(1)
		k.Nontrivial("writers %d", round)
	}
}
