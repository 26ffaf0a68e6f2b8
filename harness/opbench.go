package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-logr/logr"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/util/validation"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/operator"
)

// A bench of running operators over one shared view store.

type ctrlSpec struct {
	name   string
	op     string
	p      *pspec
	prefix string // prefix of the target names if the target kind is shared
	labels bool
	conf   opv1a1.Controller
}

func opGVK(op, kind string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: op + ".view.dcontroller.io", Version: "v1alpha1", Kind: kind}
}

// configure makes the controller specification.
func (c *ctrlSpec) configure(k *K, typ opv1a1.TargetType) {
	pc, err := c.p.config()
	k.Check(err == nil, "pipeline does not parse: %v", err)
	res := func(g schema.GroupVersionKind) opv1a1.Resource {
		r := opv1a1.Resource{Kind: g.Kind}
		if g.Group != c.op+".view.dcontroller.io" || k.R.Intn(3) == 0 {
			r.Group = &g.Group
			if k.R.Intn(2) == 0 || !strings.HasSuffix(g.Group, ".view.dcontroller.io") {
				r.Version = &g.Version
			}
		}
		return r
	}
	c.conf = opv1a1.Controller{Name: c.name, Pipeline: pc}
	for _, g := range c.p.gvks {
		s := opv1a1.Source{Resource: res(g)}
		if k.R.Intn(3) == 0 {
			s.Type = opv1a1.Watcher
		}
		c.conf.Sources = append(c.conf.Sources, s)
	}
	c.conf.Target = opv1a1.Target{Resource: res(c.p.target), Type: typ}
	if typ == opv1a1.Updater && k.R.Intn(2) == 0 {
		c.conf.Target.Type = ""
	}
}

type opRun struct {
	name   string
	ctrls  []*ctrlSpec
	op     *operator.Operator
	cancel context.CancelFunc
	done   chan error
	errs   chan error
	nerr   atomic.Int64
	last   atomic.Value
}

type world struct {
	k      *K
	log    logr.Logger
	shared *cache.ViewCache
	api    *cache.API
	ctx    context.Context
	cancel context.CancelFunc
	ops    []*opRun
	kinds  []schema.GroupVersionKind // base kinds
	nat    *natEnv                   // native API server, if any
	cfg    *rest.Config              // how the operators access it
	slot   int
}

func newWorld(k *K, log logr.Logger) *world { return newWorldOn(k, log, nil, nil, 0) }

func newWorldOn(k *K, log logr.Logger, nat *natEnv, cfg *rest.Config, slot int) *world {
	w := &world{k: k, log: log, nat: nat, cfg: cfg, slot: slot}
	api, err := cache.NewAPI(cfg, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: log}, Logger: log})
	k.Check(err == nil, "API: %v", err)
	w.api = api
	w.shared = api.GetCache().GetViewCache().(*cache.ViewCache)
	w.ctx, w.cancel = context.WithCancel(context.Background())
	go w.api.Cache.Start(w.ctx) //nolint:errcheck
	return w
}

func isNative(g schema.GroupVersionKind) bool {
	return !strings.HasSuffix(g.Group, ".view.dcontroller.io")
}

// client is the direct access to the objects of a kind.
func (w *world) client(g schema.GroupVersionKind) client.Client {
	if isNative(g) {
		return w.nat.cl
	}
	return w.shared.GetClient()
}

// create makes the operator (without starting it).
func (w *world) create(name string, ctrls []*ctrlSpec) *opRun {
	o := &opRun{name: name, ctrls: ctrls, errs: make(chan error, 64)}
	var err error
	var c cache.Cache = w.shared
	if w.cfg != nil {
		c = w.api.Cache
	}
	o.op, err = operator.New(name, w.cfg, operator.Options{Cache: c, ErrorChannel: o.errs, Logger: w.log})
	w.k.Check(err == nil, "operator: %v", err)
	spec := &opv1a1.OperatorSpec{}
	for _, c := range ctrls {
		spec.Controllers = append(spec.Controllers, c.conf)
	}
	o.op.AddSpec(spec)
	go func() {
		for {
			select {
			case e := <-o.errs:
				o.nerr.Add(1)
				o.last.Store(e.Error())
			case <-w.ctx.Done():
				return
			}
		}
	}()
	return o
}

func (w *world) start(o *opRun) {
	var ctx context.Context
	ctx, o.cancel = context.WithCancel(w.ctx)
	o.done = make(chan error, 1)
	go func() { o.done <- o.op.Start(ctx) }()
}

// stop stops an operator and checks that it has stopped.
func (w *world) stop(o *opRun) {
	if o.cancel == nil {
		return
	}
	o.cancel()
	w.k.Within("stopping operator "+o.name, 45*time.Second, func() {
		if err := <-o.done; err != nil && !errors.Is(err, context.Canceled) {
			w.k.Report("operator %s failed: %v", o.name, err)
		}
	})
	o.cancel = nil
}

func (w *world) close() {
	for _, o := range w.ops {
		w.stop(o)
	}
	w.cancel()
}

// list returns the content of a view, without the store managed metadata.
func (w *world) list(g schema.GroupVersionKind) map[string]map[string]any {
	out := w.listRaw(g)
	for ky, o := range out {
		out[ky] = twNorm(o)
	}
	return out
}

func (w *world) listRaw(g schema.GroupVersionKind) map[string]map[string]any {
	list := &unstructured.UnstructuredList{}
	list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
	if err := w.client(g).List(context.Background(), list); err != nil {
		w.k.Fail("list %s: %v", g, err)
	}
	out := map[string]map[string]any{}
	for i := range list.Items {
		o := &list.Items[i]
		ky := o.GetNamespace() + "/" + o.GetName()
		if _, ok := out[ky]; ok {
			w.k.Fail("view %s lists %s twice", g, ky)
		}
		out[ky] = o.Object
	}
	return out
}

// bare removes the labels and annotations, which an Updater merges into those of the object.
func bare(o map[string]any) map[string]any {
	o = copyMap(o)
	if md, ok := isObj(o["metadata"]); ok {
		delete(md, "labels")
		delete(md, "annotations")
		for _, f := range []string{"uid", "resourceVersion", "creationTimestamp", "generation", "managedFields"} {
			delete(md, f)
		}
	}
	if o["status"] == nil {
		delete(o, "status")
	}
	return o
}

// expected computes the target of a controller from the current content of its sources. A nil map
// without an error means that the result is not defined.
func (w *world) expected(c *ctrlSpec, src map[string][]map[string]any) (map[string][]map[string]any, error) {
	if c.p.safe {
		return refPipe(c.p.stages, c.p.kinds, src, c.p.target.GroupVersion().String(), c.p.target.Kind)
	}
	ev, err := c.p.build()
	if err != nil {
		return nil, err
	}
	t := map[string]map[string]any{}
	for i, kd := range c.p.kinds {
		for _, d := range src[kd] {
			o := object.New()
			o.SetUnstructuredContent(copyMap(d))
			o.SetGroupVersionKind(c.p.gvks[i])
			ds, err := ev.Evaluate(object.Delta{Type: object.Added, Object: o})
			if err != nil {
				return nil, err
			}
			applyDeltas(t, ds)
		}
	}
	return single(t), nil
}

// diff compares the target of a controller with the result of its pipeline over the current sources.
// extra tells which additional objects are tolerated.
func (w *world) diff(c *ctrlSpec, extra func(key string, got map[string]any) bool) (string, error, int) {
	src := map[string][]map[string]any{}
	for i, kd := range c.p.kinds {
		content := w.listRaw(c.p.gvks[i])
		if !isNative(c.p.gvks[i]) {
			content = w.list(c.p.gvks[i])
		}
		for _, ky := range sortedKeys(content) {
			src[kd] = append(src[kd], content[ky])
		}
	}
	want, err := w.expected(c, src)
	if err != nil {
		return "", err, 0
	}
	got := w.list(c.p.target)
	native := isNative(c.p.target)
	norm := func(o map[string]any) string {
		if native {
			o = intify(o).(map[string]any)
		}
		if c.p.gather {
			return canon(normLists(bare(o)))
		}
		return canon(bare(o))
	}
	if native {
		for ky := range want { // the API server rejects these
			ns, name, _ := strings.Cut(ky, "/")
			if len(validation.IsDNS1123Subdomain(name)) > 0 || (ns != "default" && ns != "other" && ns != "fixed" && ns != "grp") {
				delete(want, ky)
			}
		}
	}
	for _, ky := range sortedKeys(want) {
		g, ok := got[ky]
		if !ok {
			return fmt.Sprintf("controller %s: %s is missing in view %s, want %s", c.name, ky, c.p.target.Kind, canon(want[ky][0])), nil, 0
		}
		found := false
		for _, x := range want[ky] {
			if norm(g) == norm(twNorm(x)) && labelsWithin(x, g) {
				found = true
			}
		}
		if !found {
			return fmt.Sprintf("controller %s: %s in view %s is %s, want %s", c.name, ky, c.p.target.Kind, canon(g), canon(want[ky][0])), nil, 0
		}
	}
	for _, ky := range sortedKeys(got) {
		if _, ok := want[ky]; ok {
			continue
		}
		_, name, _ := strings.Cut(ky, "/")
		if c.prefix != "" && !strings.HasPrefix(name, c.prefix) {
			continue
		}
		if extra != nil && extra(c.p.target.String()+"|"+ky, got[ky]) {
			continue
		}
		return fmt.Sprintf("controller %s: %s is left behind in view %s: %s", c.name, ky, c.p.target.Kind, canon(got[ky])), nil, 0
	}
	return "", nil, len(want)
}

func labelsWithin(want, got map[string]any) bool {
	for _, f := range []string{"labels", "annotations"} {
		wm, _ := isObj(want["metadata"])
		gm, _ := isObj(got["metadata"])
		x, _ := isObj(wm[f])
		y, _ := isObj(gm[f])
		for k, v := range x {
			if canon(y[k]) != canon(v) {
				return false
			}
		}
	}
	return true
}

// settle waits until all controllers have converged and verifies that they remain so. The deadline is
// a liveness bound: convergence takes milliseconds.
func (w *world) settle(what string, extra func(string, map[string]any) bool, skip func(c *ctrlSpec) bool) {
	k := w.k
	deadline := time.Now().Add(60 * time.Second)
	wait := 500 * time.Microsecond
	stable, last := 0, ""
	for {
		bad, undef, objs := "", 0, 0
		for _, o := range w.ops {
			if o.cancel == nil {
				continue
			}
			for _, c := range o.ctrls {
				if skip != nil && skip(c) {
					continue
				}
				d, err, n := w.diff(c, extra)
				if err != nil {
					undef++
					last = err.Error()
					continue
				}
				objs += n
				if d != "" && bad == "" {
					bad = d
				}
			}
		}
		if bad == "" {
			stable++
			if stable >= 3 {
				k.Count("controllers_undefined", undef)
				k.Count("target_objects_compared", objs)
				return
			}
			time.Sleep(time.Duration(stable) * 3 * time.Millisecond)
			continue
		}
		if stable > 0 {
			k.Count("transient_matches", 1)
		}
		stable = 0
		if time.Now().After(deadline) {
			for _, o := range w.ops {
				k.Log("operator %s: %d errors, last %v", o.name, o.nerr.Load(), o.last.Load())
				for _, c := range o.ctrls {
					k.Log("controller %s/%s: %s", c.op, c.name, c.p)
				}
			}
			k.Log("undefined: %s", last)
			k.Fail("%s: the view does not converge: %s", what, bad)
		}
		time.Sleep(wait)
		if wait < 50*time.Millisecond {
			wait *= 2
		}
	}
}

// write makes a random change of a base object.
func (w *world) write(r *rand.Rand, cl client.Client, g schema.GroupVersionKind, names int) string {
	ns := []string{"default", "other"}[r.Intn(2)]
	name := string(rune('a' + r.Intn(names)))
	o := srcDoc(r, g, ns, name)
	for key := range o.Object["metadata"].(map[string]any) { // an Updater takes over labels and annotations only
		switch key {
		case "name", "namespace", "labels", "annotations":
		default:
			delete(o.Object["metadata"].(map[string]any), key)
		}
	}
	ctx := context.Background()
	var err error
	what := ""
	if isNative(g) {
		cl = w.nat.cl
	}
	switch x := r.Intn(12); {
	case x < 4:
		what = "create"
		err = cl.Create(ctx, o)
	case x < 7:
		what = "update"
		if isNative(g) {
			cur := vobjKey(g, ns+"/"+name)
			if err = cl.Get(ctx, client.ObjectKeyFromObject(cur), cur); err == nil {
				o.SetResourceVersion(cur.GetResourceVersion())
			}
		}
		if err == nil {
			err = cl.Update(ctx, o)
		}
	case x < 9:
		what = "delete"
		err = cl.Delete(ctx, o)
	default:
		what = "patch"
		md, _ := isObj(o.Object["metadata"])
		delete(md, "name")
		delete(md, "namespace")
		body := js(map[string]any{"metadata": md, "spec": map[string]any{"i": r.Intn(3), "s": pick(r, "x", "y"), "t": pick(r, "a", "b"), "b": r.Intn(2) == 0}})
		t := object.New()
		t.SetGroupVersionKind(g)
		t.SetName(name)
		t.SetNamespace(ns)
		err = cl.Patch(ctx, t, client.RawPatch("application/merge-patch+json", []byte(body)))
	}
	if err != nil && !apierrors.IsNotFound(err) && !apierrors.IsAlreadyExists(err) && !apierrors.IsConflict(err) {
		w.k.Report("%s of %s %s/%s failed: %v", what, g.Kind, ns, name, err)
	}
	return fmt.Sprintf("%s %s %s/%s (%v) %s", what, g.Kind, ns, name, err == nil, canon(o.Object["spec"]))
}

// burst runs concurrent writers.
func (w *world) burst(writers, n, names int, during func()) {
	k := w.k
	var wg sync.WaitGroup
	for i := 0; i < writers; i++ {
		r := rand.New(rand.NewSource(k.R.Int63()))
		cl := w.shared.GetClient()
		if len(w.ops) > 0 && r.Intn(2) == 0 {
			cl = w.ops[r.Intn(len(w.ops))].op.GetClient().(client.WithWatch)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n; j++ {
				k.Log("%s", w.write(r, cl, w.kinds[r.Intn(len(w.kinds))], names))
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
				}
			}
		}()
	}
	if during != nil {
		during()
	}
	k.Within("concurrent writers", 60*time.Second, wg.Wait)
}

// intify makes integral floats integers, as a trip through JSON does.
func intify(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, y := range x {
			out[k] = intify(y)
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i, y := range x {
			out[i] = intify(y)
		}
		return out
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	}
	return v
}

func sortedCopy(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func vobjKey(g schema.GroupVersionKind, key string) object.Object {
	o := object.New()
	o.SetGroupVersionKind(g)
	ns, name, _ := strings.Cut(key, "/")
	o.SetName(name)
	o.SetNamespace(ns)
	return o
}
