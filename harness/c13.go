package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/util/workqueue"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/predicate"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

// C13: source filters pass exactly the matching events.

func init() {
	checks["C13"] = func(c *Ctx) {
		c.Rule("evaluations = filter decisions compared with the reference: the oracle computes from the old and new object, independently of the code, whether namespace, selector and predicate all hold")
		c.Rule("distinct_nontrivial = distinct (filter configuration, event shape) pairs for which the decision depended on at least one filter")
		c.Assume("controller-runtime's documented meaning of the basic predicates: creations and deletions satisfy all of them, an update satisfies one iff the named metadata differs between the old and the new object; selector and namespace are tested on the new object")
		c.Section("predicates", c.N(40000, 800000), 8, c13pred)
		c.Section("view sources", c.N(4000, 60000), 8, func(k *K) { c13source(k, false) })
		c.Section("native sources", c.N(4000, 60000), 8, func(k *K) { c13source(k, true) })
	}
}

type evKind int

const (
	evCreate evKind = iota
	evUpdate
	evDelete
)

func (e evKind) String() string { return []string{"create", "update", "delete"}[e] }

// metaOf is what the filters see of an object.
type metaOf struct {
	ns, name, rv string
	gen          int64
	labels, ann  map[string]string
}

func sameStrMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// refPred decides a predicate (as written) on an event.
func refPred(p any, e evKind, old, new metaOf) bool {
	switch x := p.(type) {
	case string:
		if e != evUpdate {
			return true
		}
		switch x {
		case "GenerationChanged":
			return old.gen != new.gen
		case "ResourceVersionChanged":
			return old.rv != new.rv
		case "LabelChanged":
			return !sameStrMap(old.labels, new.labels)
		case "AnnotationChanged":
			return !sameStrMap(old.ann, new.ann)
		}
	case map[string]any:
		for op, args := range x {
			switch op {
			case "And":
				for _, a := range args.([]any) {
					if !refPred(a, e, old, new) {
						return false
					}
				}
				return true
			case "Or":
				for _, a := range args.([]any) {
					if refPred(a, e, old, new) {
						return true
					}
				}
				return false
			case "Not":
				return !refPred(args.([]any)[0], e, old, new)
			}
		}
	}
	panic(fmt.Sprintf("predicate %v", p))
}

// validPred makes a random valid predicate.
func validPred(r *rand.Rand, d int) any {
	if d <= 0 || r.Intn(3) == 0 {
		return []any{"GenerationChanged", "ResourceVersionChanged", "LabelChanged", "AnnotationChanged"}[r.Intn(4)]
	}
	switch r.Intn(3) {
	case 0:
		return m{"Not": l{validPred(r, d-1)}}
	default:
		ls := l{}
		for i := r.Intn(4); i >= 0; i-- {
			if i == 3 && r.Intn(2) == 0 {
				return m{[]string{"And", "Or"}[r.Intn(2)]: l{}}
			}
			ls = append(ls, validPred(r, d-1))
		}
		return m{[]string{"And", "Or"}[r.Intn(2)]: ls}
	}
}

// srcSel is a label selector with an independent matcher.
type srcSel struct {
	Labels map[string]string
	Exprs  []selExpr
}

type selExpr struct {
	Key, Op string
	Vals    []string
}

func randSel(r *rand.Rand) *srcSel {
	s := &srcSel{}
	if r.Intn(2) == 0 {
		s.Labels = map[string]string{"app": pick(r, "x", "y")}
		if r.Intn(4) == 0 {
			s.Labels["tier"] = pick(r, "x", "y")
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		e := selExpr{Key: pick(r, "app", "tier"), Op: pick(r, "In", "NotIn", "Exists", "DoesNotExist")}
		if e.Op == "In" || e.Op == "NotIn" {
			e.Vals = []string{pick(r, "x", "y")}
			if r.Intn(2) == 0 {
				e.Vals = append(e.Vals, "z")
			}
		}
		s.Exprs = append(s.Exprs, e)
	}
	return s
}

func pick[T any](r *rand.Rand, s ...T) T { return s[r.Intn(len(s))] }

func (s *srcSel) api() *metav1.LabelSelector {
	ls := &metav1.LabelSelector{MatchLabels: s.Labels}
	for _, e := range s.Exprs {
		ls.MatchExpressions = append(ls.MatchExpressions, metav1.LabelSelectorRequirement{Key: e.Key,
			Operator: metav1.LabelSelectorOperator(e.Op), Values: e.Vals})
	}
	return ls
}

func (s *srcSel) match(lab map[string]string) bool {
	for k, v := range s.Labels {
		if w, ok := lab[k]; !ok || w != v {
			return false
		}
	}
	for _, e := range s.Exprs {
		v, ok := lab[e.Key]
		in := false
		for _, x := range e.Vals {
			in = in || x == v
		}
		switch e.Op {
		case "In":
			if !ok || !in {
				return false
			}
		case "NotIn":
			if ok && in {
				return false
			}
		case "Exists":
			if !ok {
				return false
			}
		case "DoesNotExist":
			if ok {
				return false
			}
		}
	}
	return true
}

func randMeta(r *rand.Rand, ns, name string, old *metaOf) metaOf {
	n := metaOf{ns: ns, name: name, gen: 1, rv: "1"}
	if old != nil {
		n = *old
	}
	ch := func() bool { return old == nil || r.Intn(3) == 0 }
	if ch() {
		n.gen = int64(r.Intn(3))
	}
	if ch() {
		n.rv = pick(r, "", "1", "2", "10")
	}
	lab := func() map[string]string {
		x := map[string]string{}
		if r.Intn(3) > 0 {
			x["app"] = pick(r, "x", "y", "z", "")
		}
		if r.Intn(2) == 0 {
			x["tier"] = pick(r, "x", "y")
		}
		if len(x) == 0 {
			return nil
		}
		return x
	}
	if ch() {
		n.labels = lab()
	}
	if ch() {
		n.ann = lab()
	}
	return n
}

func (x metaOf) object(gvk schema.GroupVersionKind, tag string) object.Object {
	o := object.New()
	o.SetGroupVersionKind(gvk)
	o.SetName(x.name)
	o.SetNamespace(x.ns)
	if x.gen != 0 {
		o.SetGeneration(x.gen)
	}
	o.SetResourceVersion(x.rv)
	o.SetLabels(x.labels)
	o.SetAnnotations(x.ann)
	o.UnstructuredContent()["spec"] = map[string]any{"v": tag}
	return o
}

func (x metaOf) String() string {
	return fmt.Sprintf("%s/%s gen=%d rv=%q labels=%v ann=%v", x.ns, x.name, x.gen, x.rv, x.labels, x.ann)
}

// c13pred: predicates against hand-made events.
func c13pred(k *K) {
	r := k.R
	spec := validPred(r, 5)
	text := exprJSON(spec)
	k.Log("predicate %s", text)
	var p predicate.Predicate
	err := json.Unmarshal([]byte(text), &p)
	k.Check(err == nil, "predicate %s is not accepted: %v", text, err)
	tp, err := p.ToPredicate()
	k.Check(err == nil, "predicate %s cannot be built: %v", text, err)
	sel := randSel(r)
	lp, err := predicate.FromLabelSelector(*sel.api())
	k.Check(err == nil, "selector %v is not accepted: %v", js(sel), err)
	ns := pick(r, "default", "other", "")
	np := predicate.FromNamespace(ns)
	gvk := viewGVK("Alpha")
	for i := 0; i < 12; i++ {
		a := randMeta(r, pick(r, "default", "other", ""), "a", nil)
		b := randMeta(r, a.ns, a.name, &a)
		var oa, ob client.Object = a.object(gvk, "1"), b.object(gvk, "2")
		for _, e := range []evKind{evCreate, evUpdate, evDelete} {
			var got [3]bool
			new := b
			switch e {
			case evCreate:
				v := event.TypedCreateEvent[client.Object]{Object: ob}
				got = [3]bool{tp.Create(v), lp.Create(v), np.Create(v)}
			case evUpdate:
				v := event.TypedUpdateEvent[client.Object]{ObjectOld: oa, ObjectNew: ob}
				got = [3]bool{tp.Update(v), lp.Update(v), np.Update(v)}
			case evDelete:
				v := event.TypedDeleteEvent[client.Object]{Object: ob}
				got = [3]bool{tp.Delete(v), lp.Delete(v), np.Delete(v)}
			}
			want := [3]bool{refPred(spec, e, a, new), sel.match(new.labels), new.ns == ns}
			k.Check(got == want, "%s of %v (from %v): predicate, selector %v, namespace %q decide %v instead of %v", e, b, a, js(sel), ns, got, want)
			k.Eval(3)
			k.Count(fmt.Sprintf("%s decisions %v", e, want[0]), 1)
			if e == evUpdate {
				k.Nontrivial("%s %v%v%v%v", text, a.gen != b.gen, a.rv != b.rv, sameStrMap(a.labels, b.labels), sameStrMap(a.ann, b.ann))
			}
		}
	}
}

// recQueue records the requests added to a work queue.
type recQueue struct {
	workqueue.TypedRateLimitingInterface[reconciler.Request]
	mu  sync.Mutex
	got []reconciler.Request
	at  []time.Time
}

func newRecQueue() *recQueue {
	return &recQueue{TypedRateLimitingInterface: workqueue.NewTypedRateLimitingQueue(
		workqueue.DefaultTypedControllerRateLimiter[reconciler.Request]())}
}

func (q *recQueue) Add(r reconciler.Request) {
	q.mu.Lock()
	q.got = append(q.got, r)
	q.at = append(q.at, time.Now())
	q.mu.Unlock()
}
func (q *recQueue) AddAfter(r reconciler.Request, _ time.Duration) { q.Add(r) }
func (q *recQueue) AddRateLimited(r reconciler.Request)            { q.Add(r) }
func (q *recQueue) AddWithOpts(_ any, rs ...reconciler.Request) {
	for _, r := range rs {
		q.Add(r)
	}
}

func (q *recQueue) snapshot() []reconciler.Request {
	q.mu.Lock()
	defer q.mu.Unlock()
	return append([]reconciler.Request{}, q.got...)
}

// filterSrc is a source under test with its expected stream of events.
type filterSrc struct {
	id   int
	pred any
	sel  *srcSel
	ns   *string
	q    *recQueue
	want map[string][]string
	n    int
}

func (s *filterSrc) String() string {
	ns := "-"
	if s.ns != nil {
		ns = *s.ns
	}
	return fmt.Sprintf("pred=%s sel=%s ns=%s", exprJSON(s.pred), js(s.sel), ns)
}

func (s *filterSrc) pass(e evKind, old, new metaOf) bool {
	if s.pred != nil && !refPred(s.pred, e, old, new) {
		return false
	}
	if s.sel != nil && !s.sel.match(new.labels) {
		return false
	}
	return s.ns == nil || *s.ns == new.ns
}

// c13source: whole sources on a view store or a native cache: pre-existing objects, changes while
// watching, several sources with different filters on the same kind, and objects of other kinds.
func c13source(k *K, native bool) {
	r := k.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mgr manager.Manager
	var fake *manager.FakeManager
	var err error
	gvk := viewGVK("Alpha")
	res := opv1a1.Resource{Kind: "Alpha"}
	if native {
		fake, err = manager.NewFakeManager(manager.Options{Logger: logr.Discard()})
		k.Check(err == nil, "fake manager: %v", err)
		mgr = fake
		gvk = schema.GroupVersionKind{Version: "v1", Kind: "Pod"}
		g, v := "", "v1"
		res = opv1a1.Resource{Group: &g, Version: &v, Kind: "Pod"}
	} else {
		mgr, err = newHeadlessMgr()
		k.Check(err == nil, "headless manager: %v", err)
		go func() { _ = mgr.GetCache().Start(ctx) }()
	}
	other := viewGVK("Beta")

	type cur struct {
		meta metaOf
		obj  object.Object
	}
	state := map[string]cur{}
	tag := 0
	var srcs []*filterSrc
	expect := func(e evKind, old, new metaOf, typ object.DeltaType, o object.Object) {
		for _, s := range srcs {
			ok := s.pass(e, old, new)
			k.Eval(1)
			if s.pred != nil || s.sel != nil || s.ns != nil {
				k.Nontrivial("%v %s %v", s, e, ok)
			}
			if ok {
				key := new.ns + "/" + new.name
				s.want[key] = append(s.want[key], fmt.Sprintf("%s %s", typ, stripUID(o.UnstructuredContent())))
				s.n++
				k.Count("events expected", 1)
			} else {
				k.Count("events filtered", 1)
			}
		}
	}
	write := func(watching bool) {
		key := pick(r, "default/a", "default/b", "other/a", "third/a")
		ns, name, _ := strings.Cut(key, "/")
		tag++
		if !native && r.Intn(8) == 0 { // another kind, same key
			o := object.New()
			o.SetGroupVersionKind(other)
			o.SetName(name)
			o.SetNamespace(ns)
			o.UnstructuredContent()["spec"] = map[string]any{"v": fmt.Sprint(tag)}
			_ = mgr.GetClient().Create(ctx, o)
			return
		}
		c, ok := state[key]
		switch {
		case !ok:
			n := randMeta(r, ns, name, nil)
			o := n.object(gvk, fmt.Sprint(tag))
			k.Log("create %v", n)
			state[key] = cur{n, o}
			expect(evCreate, n, n, object.Added, o)
			if native {
				err = fake.GetRuntimeCache().Add(object.DeepCopy(o))
			} else {
				err = mgr.GetClient().Create(ctx, object.DeepCopy(o))
			}
		case r.Intn(5) == 0:
			k.Log("delete %v", c.meta)
			delete(state, key)
			expect(evDelete, c.meta, c.meta, object.Deleted, c.obj)
			if native {
				err = fake.GetRuntimeCache().Delete(object.DeepCopy(c.obj))
			} else {
				err = mgr.GetClient().Delete(ctx, object.DeepCopy(c.obj))
			}
		default:
			n := randMeta(r, ns, name, &c.meta)
			o := n.object(gvk, fmt.Sprint(tag))
			k.Log("update %v -> %v", c.meta, n)
			state[key] = cur{n, o}
			expect(evUpdate, c.meta, n, object.Updated, o)
			if native {
				err = fake.GetRuntimeCache().Update(object.DeepCopy(c.obj), object.DeepCopy(o))
			} else {
				err = mgr.GetClient().Update(ctx, object.DeepCopy(o))
			}
		}
		k.Check(err == nil, "write failed: %v", err)
	}
	addSource := func() {
		s := &filterSrc{id: len(srcs), q: newRecQueue(), want: map[string][]string{}}
		spec := opv1a1.Source{Resource: res, Type: opv1a1.SourceType(pick(r, "", "Watcher"))}
		if r.Intn(3) > 0 {
			s.pred = validPred(r, 3)
			p := &predicate.Predicate{}
			if err := json.Unmarshal([]byte(exprJSON(s.pred)), p); err != nil {
				k.Fail("predicate %s: %v", exprJSON(s.pred), err)
			}
			spec.Predicate = p
		}
		if r.Intn(2) == 0 {
			s.sel = randSel(r)
			spec.LabelSelector = s.sel.api()
		}
		if r.Intn(2) == 0 {
			ns := pick(r, "default", "other", "none")
			s.ns = &ns
			spec.Namespace = &ns
		}
		k.Log("source %d: %v", s.id, s)
		src := reconciler.NewSource(mgr, pOp, spec)
		got, err := src.GetGVK()
		k.Check(err == nil && got == gvk, "source resolves to %v (%v) instead of %v", got, err, gvk)
		ts, err := src.GetSource()
		k.Check(err == nil, "GetSource: %v", err)
		// objects already there are delivered as created
		save := srcs
		srcs = []*filterSrc{s}
		for _, key := range sortedKeys(state) {
			c := state[key]
			expect(evCreate, c.meta, c.meta, object.Added, c.obj)
		}
		srcs = append(save, s)
		err = ts.Start(ctx, s.q)
		k.Check(err == nil, "Start: %v", err)
		if w, ok := ts.(interface {
			WaitForSync(context.Context) error
		}); ok {
			wctx, c := context.WithTimeout(ctx, 20*time.Second)
			err = w.WaitForSync(wctx)
			c()
			k.Check(err == nil, "WaitForSync: %v", err)
		}
	}
	if !native {
		for i := r.Intn(6); i > 0; i-- {
			write(false)
		}
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		addSource()
	}
	for i := 5 + r.Intn(25); i > 0; i-- {
		write(true)
	}
	if !native && r.Intn(3) == 0 {
		addSource()
		for i := r.Intn(10); i > 0; i-- {
			write(true)
		}
	}
	for _, s := range srcs {
		deadline := time.Now().Add(10 * time.Second)
		for len(s.q.snapshot()) < s.n && time.Now().Before(deadline) {
			time.Sleep(200 * time.Microsecond)
		}
	}
	if !native {
		time.Sleep(2 * time.Millisecond)
	}
	for _, s := range srcs {
		got := map[string][]string{}
		for _, q := range s.q.snapshot() {
			key := q.Namespace + "/" + q.Name
			k.Check(q.GVK == gvk, "source %d: request of %v for a source of %v", s.id, q.GVK, gvk)
			k.Check(q.Object != nil, "source %d: request without object snapshot", s.id)
			got[key] = append(got[key], fmt.Sprintf("%s %s", q.EventType, stripUID(q.Object.UnstructuredContent())))
		}
		for _, key := range sortedKeys(got) {
			k.Check(reflect.DeepEqual(got[key], s.want[key]), "source %d (%v): events of %s are\n%s\ninstead of\n%s", s.id, s, key,
				strings.Join(got[key], "\n"), strings.Join(s.want[key], "\n"))
		}
		for _, key := range sortedKeys(s.want) {
			k.Check(got[key] != nil, "source %d (%v): no events of %s, expected\n%s", s.id, s, key, strings.Join(s.want[key], "\n"))
		}
		k.Count("streams compared", 1)
	}
}
