package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/go-logr/logr"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/fields"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

func init() { checks["C10"] = checkC10 }

func checkC10(c *Ctx) {
	c.Rule("lin: recorded concurrent histories of view-store calls (all write verbs, get, filtered list; several access paths to one shared store; yields and delays injected at the code's own log statements) are checked for linearizability by porcupine against a sequential store model. seq: every reply of a long single-threaded history over kinds, operators, namespaces and selectors is compared with the model. stress: many writers patch disjoint fields of shared objects, nothing may be lost")
	c.Assume("Create through a client is create-or-replace and patches merge lists element by element (pinned by existing tests); DeleteAllOf is not atomic by design and only checked sequentially")
	c.Section("seq", c.N(4000, 20000), 8, c10seq)
	c.Section("lin", c.N(12000, 120000), 4, c10lin)
	c.Section("stress", c.N(500, 4000), 2, c10stress)
}

// jitter is a log sink that injects yields and short delays wherever the code under test logs.
type jitter struct {
	n    *atomic.Uint64
	rate uint64
}

func (j jitter) Init(logr.RuntimeInfo)             {}
func (j jitter) Enabled(int) bool                  { return true }
func (j jitter) WithValues(...any) logr.LogSink    { return j }
func (j jitter) WithName(string) logr.LogSink      { return j }
func (j jitter) Error(_ error, _ string, _ ...any) { j.hit() }
func (j jitter) Info(_ int, _ string, _ ...any)    { j.hit() }
func (j jitter) hit() {
	x := j.n.Add(1) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	switch {
	case x%j.rate == 0:
		time.Sleep(time.Duration(x>>40%40) * time.Microsecond)
	case x%3 == 0:
		runtime.Gosched()
	}
}

func jitterLog(seed int64, rate uint64) logr.Logger {
	n := &atomic.Uint64{}
	n.Store(uint64(seed))
	return logr.New(jitter{n, rate})
}

// vstore is one access path to a shared view store.
type vpath struct {
	name string
	vc   cache.ViewCacheInterface
	cl   client.Client
}

// newStore makes a shared view store with several access paths.
func newStore(log logr.Logger, n int) (*cache.ViewCache, []vpath) {
	api, err := cache.NewAPI(nil, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: log}, Logger: log})
	if err != nil {
		panic(err)
	}
	vc := api.GetCache().GetViewCache().(*cache.ViewCache)
	ps := []vpath{{"shared", vc, vc.GetClient()}, {"api", vc, api.Client}}
	for i := 0; i < n; i++ {
		d := cache.NewDelegatingViewCache(vc, cache.CacheOptions{Logger: log})
		ps = append(ps, vpath{fmt.Sprintf("delegating%d", i), d, d.GetClient()})
		cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{ViewCache: d, Logger: log})
		if err != nil {
			panic(err)
		}
		ccl, err := cache.NewClientForCache(nil, cc, cache.ClientOptions{})
		if err != nil {
			panic(err)
		}
		ps = append(ps, vpath{fmt.Sprintf("composite%d", i), d, ccl})
	}
	return vc, ps
}

// sop is one store operation, sres its reply.
type sop struct {
	Path  int
	Op    string
	Op2   string // operator
	Kind  string
	NS    string
	Name  string
	Obj   map[string]any // content to write, patch or status
	Sel   *lsel
	Field *fsel
}

func (o sop) key() string { return o.Op2 + "/" + o.Kind + "/" + o.NS + "/" + o.Name }

func (o sop) String() string {
	return fmt.Sprintf("path %d: %s %s %s sel=%v field=%v", o.Path, o.Op, o.key(), canon(o.Obj), o.Sel, o.Field)
}

type sres struct {
	Err  string
	Objs string // canonical content of what was read
}

// lsel is a label selector together with its own (independent) meaning.
type lsel struct {
	key, op string
	vals    []string
}

func (s *lsel) String() string {
	if s == nil {
		return "-"
	}
	switch s.op {
	case "=", "!=":
		return s.key + s.op + s.vals[0]
	case "exists":
		return s.key
	case "!":
		return "!" + s.key
	}
	return s.key + " " + s.op + " (" + strings.Join(s.vals, ",") + ")"
}

func (s *lsel) match(l map[string]any) bool {
	if s == nil {
		return true
	}
	v, ok := l[s.key].(string)
	in := false
	for _, x := range s.vals {
		in = in || x == v
	}
	switch s.op {
	case "=", "in":
		return ok && in
	case "!=", "notin":
		return !ok || !in
	case "exists":
		return ok
	}
	return !ok
}

func genSel2(r *rand.Rand) *lsel {
	s := &lsel{key: []string{"app", "tier"}[r.Intn(2)], op: []string{"=", "!=", "in", "notin", "exists", "!"}[r.Intn(6)]}
	s.vals = []string{[]string{"x", "y"}[r.Intn(2)]}
	if r.Intn(2) == 0 && (s.op == "in" || s.op == "notin") {
		s.vals = []string{"x", "z"}
	}
	return s
}

// fsel is a field selector together with its own meaning. Views can be selected by name, namespace,
// phase and readiness.
type fsel struct {
	path, val string
	neg       bool
}

func (s *fsel) String() string {
	if s == nil {
		return "-"
	}
	return s.path + map[bool]string{false: "=", true: "!="}[s.neg] + s.val
}

func (s *fsel) match(x map[string]any) bool {
	if s == nil {
		return true
	}
	p := strings.Split(s.path, ".")
	y, _ := x[p[0]].(map[string]any)
	v := ""
	switch z := y[p[1]].(type) {
	case string:
		if p[1] != "ready" {
			v = z
		}
	case bool:
		if p[1] == "ready" {
			v = fmt.Sprint(z)
		}
	}
	return (v == s.val) != s.neg
}

func (s *fsel) fields() fields.Selector {
	x, err := fields.ParseSelector(s.String())
	if err != nil {
		panic(err)
	}
	return x
}

func genFsel(r *rand.Rand) *fsel {
	switch r.Intn(6) {
	case 0, 1:
		return &fsel{"metadata.name", []string{"a", "b"}[r.Intn(2)], r.Intn(4) == 0}
	case 2:
		return &fsel{"metadata.namespace", []string{"default", "other"}[r.Intn(2)], r.Intn(4) == 0}
	case 3:
		return &fsel{"status.phase", []string{"run", "done"}[r.Intn(2)], r.Intn(3) == 0}
	}
	return &fsel{"status.ready", []string{"true", "false"}[r.Intn(2)], r.Intn(3) == 0}
}

// storeStatus makes a status.
func storeStatus(r *rand.Rand, tag string) map[string]any {
	switch r.Intn(4) {
	case 0:
		return m{"phase": tag}
	case 1:
		return m{"phase": []string{"run", "done"}[r.Intn(2)], "tag": tag}
	}
	return m{"ready": r.Intn(2) == 0, "tag": tag, "phase": []string{"run", "done"}[r.Intn(2)]}
}

func (s *lsel) labels() labels.Selector {
	x, err := labels.Parse(s.String())
	if err != nil {
		panic(err)
	}
	return x
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case apierrors.IsNotFound(err):
		return "notfound"
	case apierrors.IsAlreadyExists(err):
		return "exists"
	}
	return "error: " + err.Error()
}

func vobj(operator, kind, ns, name string, content map[string]any) object.Object {
	o := object.NewViewObject(operator, kind)
	object.SetContent(o, copyMap(content))
	object.SetName(o, ns, name)
	if md, ok := content["metadata"].(map[string]any); ok {
		if l, ok := md["labels"].(map[string]any); ok {
			x := map[string]string{}
			for k, v := range l {
				x[k] = v.(string)
			}
			o.SetLabels(x)
		}
		if l, ok := md["annotations"].(map[string]any); ok {
			x := map[string]string{}
			for k, v := range l {
				x[k] = v.(string)
			}
			o.SetAnnotations(x)
		}
		if l, ok := md["finalizers"].([]any); ok {
			x := []string{}
			for _, v := range l {
				x = append(x, v.(string))
			}
			o.SetFinalizers(x)
		}
	}
	return o
}

func (o sop) do(ps []vpath) sres {
	ctx := context.Background()
	p := ps[o.Path%len(ps)]
	var err error
	switch o.Op {
	case "add":
		err = p.vc.Add(vobj(o.Op2, o.Kind, o.NS, o.Name, o.Obj))
	case "put":
		err = p.vc.Update(nil, vobj(o.Op2, o.Kind, o.NS, o.Name, o.Obj))
	case "remove":
		err = p.vc.Delete(vobj(o.Op2, o.Kind, o.NS, o.Name, nil))
	case "create":
		err = p.cl.Create(ctx, vobj(o.Op2, o.Kind, o.NS, o.Name, o.Obj))
	case "update":
		err = p.cl.Update(ctx, vobj(o.Op2, o.Kind, o.NS, o.Name, o.Obj))
	case "delete":
		err = p.cl.Delete(ctx, vobj(o.Op2, o.Kind, o.NS, o.Name, nil))
	case "patch":
		b, _ := json.Marshal(o.Obj)
		err = p.cl.Patch(ctx, vobj(o.Op2, o.Kind, o.NS, o.Name, nil), client.RawPatch(types.MergePatchType, b))
	case "status":
		x := vobj(o.Op2, o.Kind, o.NS, o.Name, nil)
		x.UnstructuredContent()["status"] = deepCopy(o.Obj)
		err = p.cl.Status().Update(ctx, x)
	case "spatch":
		b, _ := json.Marshal(m{"status": o.Obj})
		err = p.cl.Status().Patch(ctx, vobj(o.Op2, o.Kind, o.NS, o.Name, nil), client.RawPatch(types.MergePatchType, b))
	case "get", "cget":
		x := vobj(o.Op2, o.Kind, "", "", nil)
		if o.Op == "get" {
			err = p.cl.Get(ctx, client.ObjectKey{Namespace: o.NS, Name: o.Name}, x)
		} else {
			err = p.vc.Get(ctx, client.ObjectKey{Namespace: o.NS, Name: o.Name}, x)
		}
		if err == nil {
			return sres{Objs: stripUID(x.UnstructuredContent())}
		}
	case "list", "clist", "deleteall":
		var opts []client.ListOption
		if o.NS != "" {
			opts = append(opts, client.InNamespace(o.NS))
		}
		if o.Sel != nil {
			if o.Sel.op == "=" {
				opts = append(opts, client.MatchingLabels{o.Sel.key: o.Sel.vals[0]})
			} else {
				opts = append(opts, client.MatchingLabelsSelector{Selector: o.Sel.labels()})
			}
		}
		if o.Field != nil {
			opts = append(opts, client.MatchingFieldsSelector{Selector: o.Field.fields()})
		}
		if len(o.Name)%2 == 1 { // same thing as a ListOptions struct
			lo := (&client.ListOptions{}).ApplyOptions(opts)
			opts = []client.ListOption{lo}
		}
		if o.Op == "deleteall" {
			do := &client.DeleteAllOfOptions{}
			do.ListOptions = *(&client.ListOptions{}).ApplyOptions(opts)
			err = p.cl.DeleteAllOf(ctx, vobj(o.Op2, o.Kind, "", "", nil), do)
			break
		}
		lst := cache.NewViewObjectList(o.Op2, o.Kind)
		if o.Obj["reused"] == true {
			for _, n := range []string{"left", "over"} {
				lst.Items = append(lst.Items, *vobj(o.Op2, o.Kind, o.NS, n, nil))
			}
		}
		if o.Op == "list" {
			err = p.cl.List(ctx, lst, opts...)
		} else {
			err = p.vc.List(ctx, lst, opts...)
		}
		if err == nil {
			var out []string
			for i := range lst.Items {
				out = append(out, stripUID(lst.Items[i].UnstructuredContent()))
			}
			return sres{Objs: strings.Join(sortStrings(out), "\n")}
		}
	}
	return sres{Err: errClass(err)}
}

// smodel is the sequential specification of the store: key -> canonical object.
type smodel map[string]string

func (s smodel) clone() smodel {
	c := make(smodel, len(s)+1)
	for k, v := range s {
		c[k] = v
	}
	return c
}

// refPatch is the documented merge patch: maps are merged, null removes a key, lists are merged
// element by element, anything else replaces.
func refPatch(o, p any) any {
	switch x := p.(type) {
	case map[string]any:
		y, ok := o.(map[string]any)
		if !ok {
			y = m{} // nulls are not stored in new maps either
		}
		y = copyMap(y)
		for k, v := range x {
			if v == nil {
				delete(y, k)
			} else {
				y[k] = refPatch(y[k], v)
			}
		}
		return y
	case []any:
		y, ok := o.([]any)
		if !ok {
			return deepCopy(p)
		}
		out := []any{}
		for i := 0; i < len(x) || i < len(y); i++ {
			switch {
			case i >= len(x):
				out = append(out, deepCopy(y[i]))
			case i >= len(y):
				out = append(out, deepCopy(x[i]))
			default:
				out = append(out, refPatch(y[i], x[i]))
			}
		}
		return out
	}
	return deepCopy(p)
}

// apply executes an operation on the model and returns the expected reply.
func (s smodel) apply(o sop) (smodel, sres) {
	cur, ok := s[o.key()]
	put := func() (smodel, sres) {
		c := s.clone()
		c[o.key()] = stripUID(vobj(o.Op2, o.Kind, o.NS, o.Name, o.Obj).UnstructuredContent())
		return c, sres{}
	}
	edit := func(f func(x map[string]any) any) (smodel, sres) {
		if !ok {
			return s, sres{Err: "notfound"}
		}
		c := s.clone()
		c[o.key()] = canon(f(parseJSON(cur)))
		return c, sres{}
	}
	switch o.Op {
	case "add":
		if ok {
			return s, sres{Err: "exists"}
		}
		return put()
	case "put", "create":
		return put()
	case "update":
		if !ok {
			return s, sres{Err: "notfound"}
		}
		return put()
	case "remove", "delete":
		if !ok {
			return s, sres{Err: "notfound"}
		}
		c := s.clone()
		delete(c, o.key())
		return c, sres{}
	case "patch":
		return edit(func(x map[string]any) any { return refPatch(x, parseJSON(canon(o.Obj))) })
	case "spatch":
		return edit(func(x map[string]any) any { return refPatch(x, parseJSON(canon(m{"status": o.Obj}))) })
	case "status":
		return edit(func(x map[string]any) any { x["status"] = parseJSON(canon(o.Obj)); return x })
	case "get", "cget":
		if !ok {
			return s, sres{Err: "notfound"}
		}
		return s, sres{Objs: cur}
	case "list", "clist", "deleteall":
		var out []string
		c := s
		for _, k := range sortedKeys(s) {
			x := strings.Split(k, "/")
			if x[0] != o.Op2 || x[1] != o.Kind || o.NS != "" && x[2] != o.NS || !o.Field.match(parseJSON(s[k])) {
				continue
			}
			lab := map[string]any{}
			if o.Sel != nil {
				if md, ok := parseJSON(s[k])["metadata"].(map[string]any); ok {
					if l, ok := md["labels"].(map[string]any); ok {
						lab = l
					}
				}
			}
			if !o.Sel.match(lab) {
				continue
			}
			if o.Op == "deleteall" {
				if len(c) == len(s) {
					c = s.clone()
				}
				delete(c, k)
				continue
			}
			out = append(out, s[k])
		}
		return c, sres{Objs: strings.Join(sortStrings(out), "\n")}
	}
	panic(o.Op)
}

// parseJSON parses canonical JSON keeping integers exact.
func parseJSON(s string) map[string]any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var x map[string]any
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	return fixNum(x).(map[string]any)
}

func fixNum(v any) any {
	switch x := v.(type) {
	case json.Number:
		if i, err := x.Int64(); err == nil && !strings.ContainsAny(string(x), ".eE") {
			return i
		}
		f, _ := x.Float64()
		return f
	case map[string]any:
		for k := range x {
			x[k] = fixNum(x[k])
		}
	case []any:
		for i := range x {
			x[i] = fixNum(x[i])
		}
	}
	return v
}

// storeContent generates content to be written. Values are unique by tag so that reads identify
// the write.
func storeContent(r *rand.Rand, tag string) map[string]any {
	c := m{"spec": m{"v": tag, "x": int64(r.Intn(3)), "l": l{int64(r.Intn(3)), m{"y": int64(r.Intn(2))}}}}
	if r.Intn(3) > 0 {
		lab := m{}
		if r.Intn(3) > 0 {
			lab["app"] = []string{"x", "y", "z"}[r.Intn(3)]
		}
		if r.Intn(2) == 0 {
			lab["tier"] = []string{"x", "y"}[r.Intn(2)]
		}
		if len(lab) > 0 {
			c["metadata"] = m{"labels": lab}
		}
	}
	if r.Intn(4) == 0 {
		c["status"] = m{"phase": tag}
	}
	return c
}

func storePatch(r *rand.Rand, tag string) map[string]any {
	switch r.Intn(8) {
	case 0:
		return m{"spec": m{"v": nil, "f" + string(tag[0]): tag}}
	case 1:
		return m{"metadata": m{"labels": m{"app": []any{"x", "y", nil}[r.Intn(3)]}}, "spec": m{"v": tag}}
	case 2:
		return m{"spec": m{"l": l{int64(r.Intn(9))}, "p": tag}}
	case 3:
		return m{"spec": m{"l": nil}, "status": m{"phase": tag}}
	case 4:
		return m{"spec": m{"nest": m{"a" + string(tag[0]): m{"t": tag}}}}
	default:
		return m{"spec": m{"f" + string(tag[0]): tag}}
	}
}

func c10seq(k *K) {
	r := k.R
	_, ps := newStore(logr.Discard(), 2)
	s := smodel{}
	ops := []string{"add", "put", "remove", "create", "create", "update", "delete", "patch", "patch", "status", "spatch", "get", "cget", "list", "list", "clist", "deleteall"}
	names := []string{"a", "b", "cc"}
	if k.Index%40 == 0 { // many objects
		for i, n := 0, 10+r.Intn(150); i < n; i++ {
			o := sop{Path: r.Intn(len(ps)), Op: pick(r, "add", "put", "create"), Op2: "vop", Kind: "Alpha", NS: pick(r, "default", "other"), Name: fmt.Sprintf("o%d", i), Obj: storeContent(r, fmt.Sprintf("m%d", i))}
			if e := o.do(ps); e.Err != "" {
				k.Fail("%s: %s", o, e.Err)
			}
			s, _ = s.apply(o)
			if r.Intn(10) == 0 {
				names = append(names, o.Name)
			}
		}
		k.Max("objects in a list", len(s))
	}
	for i, n := 0, 30+r.Intn(60); i < n; i++ {
		o := sop{Path: r.Intn(len(ps)), Op: ops[r.Intn(len(ops))], Op2: []string{"vop", "vop", "op2"}[r.Intn(3)], Kind: []string{"Alpha", "Alpha", "Beta"}[r.Intn(3)],
			NS: []string{"default", "default", "other", ""}[r.Intn(4)], Name: names[r.Intn(len(names))]}
		if i > n-12 && r.Intn(2) == 0 {
			o.Op = []string{"list", "clist"}[r.Intn(2)]
		}
		tag := fmt.Sprintf("%c%d", 'a'+byte(r.Intn(3)), i)
		switch o.Op {
		case "patch":
			o.Obj = storePatch(r, tag)
			if md, ok := o.Obj["metadata"]; ok && canon(md) == `{"labels":{"app":null}}` && r.Intn(2) == 0 {
				o.Obj = m{"spec": m{"v": tag}}
			}
		case "status", "spatch":
			o.Obj = storeStatus(r, tag)
		case "deleteall":
			if r.Intn(3) > 0 {
				o.Op = "list"
			}
			fallthrough
		case "list", "clist":
			o.Obj = m{"reused": r.Intn(4) == 0}
			if r.Intn(2) == 0 {
				o.Sel = genSel2(r)
			}
			if r.Intn(4) == 0 {
				o.Field = genFsel(r)
			}
		default:
			o.Obj = storeContent(r, tag)
			if x, ok := s[o.key()]; ok && r.Intn(4) == 0 { // the same content again
				o.Obj = parseJSON(x)
			}
			if r.Intn(3) == 0 { // or almost so
				md, _ := o.Obj["metadata"].(map[string]any)
				if md == nil {
					md = m{}
				}
				md[pick(r, "annotations", "labels")] = m{pick(r, "app", "note"): pick(r, "", "x", "y")}
				if r.Intn(2) == 0 {
					md["finalizers"] = l{pick(r, "x.io/a", "x.io/b")}
				}
				o.Obj["metadata"] = md
			}
		}
		k.Log("%d %s", i, o)
		got := o.do(ps)
		s2, want := s.apply(o)
		if got != want {
			k.Fail("%s: replied %+v instead of %+v", o, got, want)
		}
		s = s2
		k.Count("op:"+o.Op, 1)
		if want.Err != "" {
			k.Count("reply:"+want.Err, 1)
		}
		if (o.Op == "list" || o.Op == "clist") && want.Objs != "" {
			k.Nontrivial("list %s %s", o, want.Objs)
		}
	}
}

func c10lin(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(k.R.Int63(), uint64(4+r.Intn(20))), 2)
	clients, nops := 2+r.Intn(4), 4+r.Intn(5)
	names := []string{"a", "b"}[:1+r.Intn(2)]
	progs := make([][]sop, clients)
	ops := []string{"add", "put", "remove", "create", "update", "update", "delete", "patch", "patch", "patch", "status", "spatch", "get", "get", "cget", "list", "clist"}
	switch r.Intn(4) {
	case 0: // patches against updates and deletes
		ops = []string{"patch", "patch", "patch", "update", "create", "delete", "get"}
	case 1: // fights for existence
		ops = []string{"add", "remove", "delete", "create", "update", "get", "list"}
	}
	for c := range progs {
		for i := 0; i < nops; i++ {
			o := sop{Path: r.Intn(len(ps)), Op: ops[r.Intn(len(ops))], Op2: "vop", Kind: "Alpha", NS: "default", Name: names[r.Intn(len(names))]}
			tag := fmt.Sprintf("%c%d", 'a'+byte(c), i)
			switch o.Op {
			case "patch":
				o.Obj = m{"spec": m{"f" + string(tag[0]): tag}}
				if r.Intn(4) == 0 {
					o.Obj = m{"spec": m{"v": tag}, "status": m{"phase": tag}}
				}
			case "status", "spatch":
				o.Obj = m{"phase": tag}
			case "list", "clist":
				if r.Intn(2) == 0 {
					o.Sel = genSel2(r)
				}
			default:
				o.Obj = storeContent(r, tag)
			}
			progs[c] = append(progs[c], o)
		}
	}
	init := smodel{}
	if r.Intn(2) == 0 {
		o := sop{Op: "create", Op2: "vop", Kind: "Alpha", NS: "default", Name: "a", Obj: m{"spec": m{"v": "init"}}}
		o.do(ps)
		init, _ = init.apply(o)
	}
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, clients)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for c := range progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					k.Report("panic in a concurrent store operation: %v", e)
				}
			}()
			<-start
			for _, o := range progs[c] {
				call := clock.Add(1)
				res := o.do(ps)
				ret := clock.Add(1)
				hist[c] = append(hist[c], porcupine.Operation{ClientId: c, Input: o, Call: call, Output: res, Return: ret})
			}
		}()
	}
	close(start)
	wg.Wait()
	var all []porcupine.Operation
	overlap := 0
	for c := range hist {
		all = append(all, hist[c]...)
	}
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[i].Call < all[j].Return && all[j].Call < all[i].Return {
				overlap++
			}
		}
	}
	k.Count("concurrent pairs", overlap)
	// final state, read after everything else
	for _, n := range names {
		o := sop{Op: "get", Op2: "vop", Kind: "Alpha", NS: "default", Name: n}
		all = append(all, porcupine.Operation{ClientId: clients, Input: o, Call: clock.Add(1), Output: o.do(ps), Return: clock.Add(1)})
	}
	model := porcupine.Model{
		Init: func() any { return init },
		Step: func(st, in, out any) (bool, any) {
			s2, want := st.(smodel).apply(in.(sop))
			return want == out.(sres), s2
		},
		Equal: func(a, b any) bool {
			x, y := a.(smodel), b.(smodel)
			if len(x) != len(y) {
				return false
			}
			for k, v := range x {
				if w, ok := y[k]; !ok || w != v {
					return false
				}
			}
			return true
		},
		Hash: nil,
	}
	switch porcupine.CheckOperationsTimeout(model, all, 20*time.Second) {
	case porcupine.Illegal:
		for _, o := range all {
			k.Log("client %d [%d..%d] %s -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		k.Fail("the history of %d concurrent operations (%d overlapping pairs) is not linearizable", len(all), overlap)
	case porcupine.Unknown:
		k.Count("linearizability unknown (timeout)", 1)
		return
	}
	k.Count("operations checked", len(all))
	if overlap > 0 {
		sig := ""
		for _, o := range all {
			sig += fmt.Sprintf("%d:%d-%d ", o.ClientId, o.Call, o.Return)
		}
		k.Nontrivial("lin %d %s", k.Index, sig)
	}
}

func c10stress(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(r.Int63(), 60), 2)
	workers, rounds := 4+r.Intn(8), 20+r.Intn(20)
	o := sop{Op: "create", Op2: "vop", Kind: "Alpha", NS: "default", Name: "a", Obj: m{"spec": m{"v": "init"}}}
	k.Check(o.do(ps).Err == "", "create")
	var wg sync.WaitGroup
	stop := make(chan struct{})
	// a reader that must never see a field going back
	wg.Add(1)
	reads := 0
	go func() {
		defer wg.Done()
		last := map[string]string{}
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			g := sop{Path: i, Op: "get", Op2: "vop", Kind: "Alpha", NS: "default", Name: "a"}.do(ps)
			if g.Err != "" {
				k.Report("get of an existing object: %s", g.Err)
				return
			}
			sp, _ := parseJSON(g.Objs)["spec"].(map[string]any)
			for f, v := range sp {
				if f[0] != 'w' {
					continue
				}
				if s, _ := v.(string); s < last[f] {
					k.Report("field %s went back from %s to %s (lost update)", f, last[f], s)
					return
				} else {
					last[f] = s
				}
			}
			reads++
		}
	}()
	var ww sync.WaitGroup
	for w := 0; w < workers; w++ {
		ww.Add(1)
		go func() {
			defer ww.Done()
			for i := 0; i < rounds; i++ {
				o := sop{Path: w + i, Op: "patch", Op2: "vop", Kind: "Alpha", NS: "default", Name: "a", Obj: m{"spec": m{fmt.Sprintf("w%d", w): fmt.Sprintf("%04d", i)}}}
				if w == 0 {
					o.Op, o.Obj = "status", m{"n": fmt.Sprintf("%04d", i)}
				}
				if e := o.do(ps).Err; e != "" {
					k.Report("%s: %s", o, e)
					return
				}
			}
		}()
	}
	ww.Wait()
	close(stop)
	wg.Wait()
	x := parseJSON(sop{Op: "get", Op2: "vop", Kind: "Alpha", NS: "default", Name: "a"}.do(ps).Objs)
	last := fmt.Sprintf("%04d", rounds-1)
	sp := x["spec"].(map[string]any)
	for w := 1; w < workers; w++ {
		k.Check(sp[fmt.Sprintf("w%d", w)] == last, "the last patch of writer %d was lost: %v instead of %s", w, sp[fmt.Sprintf("w%d", w)], last)
	}
	st, _ := x["status"].(map[string]any)
	k.Check(st["n"] == last, "the last status update was lost: %v instead of %s", st["n"], last)
	k.Count("stress writes", workers*rounds)
	k.Count("stress reads", reads)
	k.Nontrivial("stress %d", k.Index)
}
