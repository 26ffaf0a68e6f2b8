package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/go-logr/logr"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	toolscache "k8s.io/client-go/tools/cache"
	crcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

// C14: Updater targets; C15: Patcher targets.

func init() {
	for _, id := range []string{"C14", "C15"} {
		patcher := id == "C15"
		checks[id] = func(c *Ctx) {
			c.Rule("evaluations = writes through a target after which the complete store was compared with the model")
			c.Rule("distinct_nontrivial = distinct (store kind, operation, object before, delta) combinations with an effect")
			c.Assume("native resources are served by controller-runtime's fake API server (resource versions, conflicts, status subresource), with the status stripped on creation as the real one does")
			c.Section("views", c.N(2500, 40000), 8, func(k *K) { c14target(k, patcher, "view") })
			c.Section("native with status subresource", c.N(700, 10000), 8, func(k *K) { c14target(k, patcher, "widget") })
			c.Section("native without status subresource", c.N(500, 8000), 8, func(k *K) { c14target(k, patcher, "gadget") })
			c.Section("concurrent writers, views", c.N(250, 4000), 8, func(k *K) { c14concurrent(k, patcher, "view") })
			c.Section("concurrent writers, native", c.N(60, 1000), 8, func(k *K) { c14concurrent(k, patcher, "widget") })
		}
	}
}

// stubCache reads from the native API server.
type stubCache struct {
	crcache.Cache
	cl client.Client
}

func (s stubCache) Get(ctx context.Context, key client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	return s.cl.Get(ctx, key, o, opts...)
}
func (s stubCache) List(ctx context.Context, list client.ObjectList, opts ...client.ListOption) error {
	return s.cl.List(ctx, list, opts...)
}

type tmgr struct {
	manager.Manager
	cl client.Client
}

func (t tmgr) GetClient() client.Client { return t.cl }

// twenv is a target environment.
type twenv struct {
	mgr    manager.Manager
	gvk    schema.GroupVersionKind
	res    opv1a1.Resource
	raw    client.Client // direct access for the oracle and for foreign writers
	hook   atomic.Pointer[func(op string, o client.Object) error]
	sub    bool       // status is a subresource
	mu     sync.Mutex // the fake API server does not write atomically
	events atomic.Int64
}

func (e *twenv) call(op string, o client.Object) error {
	if f := e.hook.Load(); f != nil {
		return (*f)(op, o)
	}
	return nil
}

func newTwenv(k *K, kind string) *twenv {
	e := &twenv{sub: kind == "widget"}
	switch kind {
	case "view":
		mgr, err := newHeadlessMgr()
		k.Check(err == nil, "headless manager: %v", err)
		e.mgr, e.raw = mgr, mgr.GetClient()
		e.gvk = viewGVK("Alpha")
		e.res = opv1a1.Resource{Kind: "Alpha"}
		inf, err := mgr.GetCache().GetInformerForKind(context.Background(), e.gvk)
		k.Check(err == nil, "informer: %v", err)
		n := func() { e.events.Add(1) }
		_, err = inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{AddFunc: func(any) { n() },
			UpdateFunc: func(any, any) { n() }, DeleteFunc: func(any) { n() }})
		k.Check(err == nil, "handler: %v", err)
		return e
	case "widget":
		e.gvk = schema.GroupVersionKind{Group: "example.com", Version: "v1", Kind: "Widget"}
	case "gadget":
		e.gvk = schema.GroupVersionKind{Group: "example.com", Version: "v1", Kind: "Gadget"}
	}
	e.res = opv1a1.Resource{Group: &e.gvk.Group, Version: &e.gvk.Version, Kind: e.gvk.Kind}
	w := &unstructured.Unstructured{}
	w.SetGroupVersionKind(schema.GroupVersionKind{Group: "example.com", Version: "v1", Kind: "Widget"})
	base := fake.NewClientBuilder().WithScheme(runtime.NewScheme()).WithStatusSubresource(w).Build()
	e.raw = base
	cl := interceptor.NewClient(base, interceptor.Funcs{
		Get: func(ctx context.Context, c client.WithWatch, key client.ObjectKey, o client.Object, opts ...client.GetOption) error {
			if err := e.call("get", o); err != nil {
				return err
			}
			return c.Get(ctx, key, o, opts...)
		},
		Create: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.CreateOption) error {
			if err := e.call("create", o); err != nil {
				return err
			}
			if e.sub {
				if u, ok := o.(*unstructured.Unstructured); ok {
					delete(u.Object, "status")
				}
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			return c.Create(ctx, o, opts...)
		},
		Update: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.UpdateOption) error {
			if err := e.call("update", o); err != nil {
				return err
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			return c.Update(ctx, o, opts...)
		},
		Patch: func(ctx context.Context, c client.WithWatch, o client.Object, p client.Patch, opts ...client.PatchOption) error {
			if err := e.call("patch", o); err != nil {
				return err
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			return c.Patch(ctx, o, p, opts...)
		},
		Delete: func(ctx context.Context, c client.WithWatch, o client.Object, opts ...client.DeleteOption) error {
			if err := e.call("delete", o); err != nil {
				return err
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			return c.Delete(ctx, o, opts...)
		},
		SubResourceUpdate: func(ctx context.Context, c client.Client, sub string, o client.Object, opts ...client.SubResourceUpdateOption) error {
			if err := e.call("status", o); err != nil {
				return err
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			// the fake API server does not check the version in status updates
			cur := object.New()
			cur.SetGroupVersionKind(e.gvk)
			if c.Get(ctx, client.ObjectKeyFromObject(o), cur) == nil && cur.GetResourceVersion() != o.GetResourceVersion() {
				return apierrors.NewConflict(schema.GroupResource{Group: e.gvk.Group, Resource: e.gvk.Kind}, o.GetName(), errors.New("object was modified"))
			}
			return c.SubResource(sub).Update(ctx, o, opts...)
		},
		SubResourcePatch: func(ctx context.Context, c client.Client, sub string, o client.Object, p client.Patch, opts ...client.SubResourcePatchOption) error {
			if err := e.call("status", o); err != nil {
				return err
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			return c.SubResource(sub).Patch(ctx, o, p, opts...)
		},
	})
	cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: stubCache{cl: cl}, Logger: logr.Discard()})
	k.Check(err == nil, "composite cache: %v", err)
	comp, err := cache.NewCompositeClient(nil, cache.ClientOptions{})
	k.Check(err == nil, "composite client: %v", err)
	comp.SetClient(cl)
	comp.SetCache(cc)
	hm, err := newHeadlessMgr()
	k.Check(err == nil, "headless manager: %v", err)
	e.mgr = tmgr{hm, comp}
	return e
}

// system managed metadata of the source object a delta was computed from.
const (
	srcVersion = "4711"
	srcUID     = "11111111-0000-0000-0000-000000000000"
)

// dump reads the store behind the target, system managed metadata removed.
func (e *twenv) dump(k *K) map[string]map[string]any {
	list := &unstructured.UnstructuredList{}
	if e.sub || e.gvk.Group == "example.com" {
		list.SetGroupVersionKind(e.gvk.GroupVersion().WithKind(e.gvk.Kind + "List"))
	} else {
		list = cache.NewViewObjectList(pOp, e.gvk.Kind)
	}
	if err := e.raw.List(context.Background(), list); err != nil {
		if apierrors.IsNotFound(err) || strings.Contains(err.Error(), "no matches") || strings.Contains(err.Error(), "not registered") {
			return map[string]map[string]any{}
		}
		k.Fail("list: %v", err)
	}
	out := map[string]map[string]any{}
	for _, o := range list.Items {
		k.Check(o.GetUID() != srcUID && o.GetResourceVersion() != srcVersion, "object %s/%s has taken over the UID or the version of the source object: %s",
			o.GetNamespace(), o.GetName(), canon(o.Object))
		out[o.GetNamespace()+"/"+o.GetName()] = twNorm(o.Object)
	}
	return out
}

// twNorm removes what the system manages and empty label and annotation maps.
func twNorm(o map[string]any) map[string]any {
	o = parseJSON(canon(o))
	if o["status"] == nil {
		delete(o, "status")
	}
	if md, ok := o["metadata"].(map[string]any); ok {
		for _, f := range []string{"uid", "resourceVersion", "creationTimestamp", "generation", "managedFields"} {
			delete(md, f)
		}
		for _, f := range []string{"labels", "annotations", "finalizers"} {
			switch x := md[f].(type) {
			case map[string]any:
				if len(x) == 0 {
					delete(md, f)
				}
			case []any:
				if len(x) == 0 {
					delete(md, f)
				}
			case nil:
				delete(md, f)
			}
		}
	}
	return o
}

func twTree(r *rand.Rand, d int, nulls bool) any {
	n := 6
	if d <= 0 {
		n = 3
	}
	switch r.Intn(n) {
	case 0:
		return int64(r.Intn(3))
	case 1:
		return pick(r, "x", "y", "", "0")
	case 2:
		if nulls && r.Intn(2) == 0 {
			return nil
		}
		if r.Intn(2) == 0 {
			return 0.5 + float64(r.Intn(2))
		}
		return r.Intn(2) == 0
	case 3:
		out := l{}
		for i := r.Intn(4); i > 0; i-- {
			out = append(out, twTree(r, d-1, false))
		}
		return out
	default:
		out := m{}
		for i := r.Intn(4); i > 0; i-- {
			out[pick(r, "a", "b", "c", "d.e")] = twTree(r, d-1, nulls)
		}
		return out
	}
}

func twMap(r *rand.Rand, d int, nulls bool) m {
	for {
		if x, ok := twTree(r, d, nulls).(m); ok {
			return x
		}
	}
}

func twStrs(r *rand.Rand) map[string]any {
	x := m{}
	for i := r.Intn(3) + r.Intn(4)*r.Intn(2); i > 0; i-- {
		x[pick(r, "app", "tier", "x.io/y", "zone", "a", "x.io/b")] = pick(r, "1", "2", "")
	}
	return x
}

// twContent generates the content of an object or delta.
func twContent(r *rand.Rand, nulls bool) map[string]any {
	c := m{}
	if r.Intn(8) > 0 {
		c["spec"] = twMap(r, 3, nulls)
	}
	if r.Intn(2) == 0 {
		c["status"] = twMap(r, 2, nulls)
	}
	if r.Intn(3) == 0 {
		c["data"] = twTree(r, 2, nulls)
	}
	md := m{}
	if r.Intn(2) == 0 {
		md["labels"] = twStrs(r)
	}
	if r.Intn(3) == 0 {
		md["annotations"] = twStrs(r)
	}
	if len(md) > 0 {
		c["metadata"] = md
	}
	return c
}

func (e *twenv) object(key string, content map[string]any) object.Object {
	o := object.New()
	x := copyMap(content)
	md, _ := x["metadata"].(map[string]any)
	if md == nil {
		md = m{}
	}
	ns, name, _ := strings.Cut(key, "/")
	md["name"] = name
	if ns != "" {
		md["namespace"] = ns
	}
	x["metadata"] = md
	o.SetUnstructuredContent(x)
	o.SetGroupVersionKind(e.gvk)
	return o
}

func sub(x map[string]any, f string) map[string]any {
	if y, ok := x[f].(map[string]any); ok {
		return y
	}
	return m{}
}

// refUpdater is the object an Updater upsert must result in.
func refUpdater(e *twenv, cur map[string]any, key string, delta map[string]any) map[string]any {
	out := copyMap(e.object(key, delta).UnstructuredContent())
	dmd := sub(delta, "metadata")
	md := m{}
	if cur != nil {
		md = copyMap(sub(cur, "metadata"))
	} else {
		ns, name, _ := strings.Cut(key, "/")
		md["name"] = name
		if ns != "" {
			md["namespace"] = ns
		}
	}
	for _, f := range []string{"labels", "annotations"} {
		x := m{}
		for k, v := range sub(md, f) {
			x[k] = v
		}
		for k, v := range sub(dmd, f) {
			x[k] = v
		}
		md[f] = x
	}
	out["metadata"] = md
	return twNorm(out)
}

// refRemove removes from v what a patch had set.
func refRemove(v, p any) (any, bool) {
	switch x := p.(type) {
	case nil:
		return v, true
	case map[string]any:
		y, ok := v.(map[string]any)
		if !ok {
			return v, true
		}
		out := m{}
		for k, w := range y {
			if q, ok := x[k]; ok {
				var keep bool
				if w, keep = refRemove(w, q); !keep {
					continue
				}
			}
			out[k] = w
		}
		return out, true
	case []any:
		y, ok := v.([]any)
		if !ok {
			return v, true
		}
		out := l{}
		for i, w := range y {
			if i < len(x) {
				if canon(w) == canon(x[i]) {
					continue
				}
				if z, keep := refRemove(w, x[i]); keep {
					w = z
				}
			}
			out = append(out, w)
		}
		return out, true
	}
	return nil, false
}

// refPatcher is the object a Patcher write must result in.
func refPatcher(e *twenv, cur map[string]any, key string, delta map[string]any, del bool) map[string]any {
	var out any
	d := copyMap(delta)
	if dm := sub(d, "metadata"); len(dm) > 0 {
		for _, f := range []string{"name", "namespace", "uid", "resourceVersion"} {
			delete(dm, f)
		}
	}
	delete(d, "kind")
	delete(d, "apiVersion")
	if del {
		out, _ = refRemove(copyMap(cur), d)
	} else {
		out = refPatch(copyMap(cur), d)
	}
	return twNorm(out.(map[string]any))
}

func c14target(k *K, patcher bool, kind string) {
	r := k.R
	ctx := context.Background()
	e := newTwenv(k, kind)
	typ := opv1a1.TargetType(pick(r, "", "Updater"))
	if patcher {
		typ = opv1a1.Patcher
	}
	tgt := reconciler.NewTarget(e.mgr, pOp, opv1a1.Target{Resource: e.res, Type: typ})
	model := map[string]map[string]any{}
	snaps := map[string][]object.Object{}
	keys := []string{"default/a", "default/b", "other/a"}
	if kind == "view" {
		keys = append(keys, "/a")
	}
	compare := func(what string) {
		got := e.dump(k)
		k.Eval(1)
		for _, key := range sortedKeys(got) {
			w, ok := model[key]
			k.Check(ok, "%s: object %s exists: %s", what, key, canon(got[key]))
			k.Check(canon(w) == canon(got[key]), "%s: object %s is\n%s\ninstead of\n%s", what, key, canon(got[key]), canon(w))
		}
		for _, key := range sortedKeys(model) {
			k.Check(got[key] != nil, "%s: object %s is missing", what, key)
		}
	}
	reborn := map[string]bool{}
	snap := func(key string) {
		// the fake API server starts versions again for a new object of the same name
		if kind != "view" && reborn[key] && model[key] != nil {
			snaps[key], reborn[key] = nil, false
		}
		o := object.New()
		o.SetGroupVersionKind(e.gvk)
		ns, name, _ := strings.Cut(key, "/")
		if err := e.raw.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, o); err == nil {
			snaps[key] = append(snaps[key], o)
		}
	}
	// vanish deletes an object behind the target's back.
	vanish := func(key string) {
		o := object.New()
		o.SetGroupVersionKind(e.gvk)
		ns, name, _ := strings.Cut(key, "/")
		k.Check(e.raw.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, o) == nil, "foreign get failed")
		if len(o.GetFinalizers()) > 0 {
			o.SetFinalizers(nil)
			k.Check(e.raw.Update(ctx, o) == nil, "foreign update failed")
		}
		err := e.raw.Delete(ctx, o)
		k.Check(err == nil, "foreign delete: %v", err)
		delete(model, key)
		reborn[key] = true
	}
	// foreign changes an object behind the target's back.
	foreign := func(key string) {
		cur, ok := model[key]
		switch {
		case !ok:
			c := twContent(r, false)
			if e.sub {
				delete(c, "status")
			}
			o := e.object(key, c)
			if r.Intn(3) == 0 {
				o.SetFinalizers([]string{"x.io/keep"})
			}
			k.Log("foreign create %s %s", key, canon(o.UnstructuredContent()))
			model[key] = twNorm(o.UnstructuredContent())
			err := e.raw.Create(ctx, o)
			k.Check(err == nil, "foreign create: %v", err)
		case r.Intn(4) == 0:
			k.Log("foreign delete %s", key)
			vanish(key)
		default:
			o := object.New()
			o.SetGroupVersionKind(e.gvk)
			ns, name, _ := strings.Cut(key, "/")
			k.Check(e.raw.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, o) == nil, "foreign get failed")
			p := twContent(r, false)
			n := refPatch(copyMap(cur), p).(map[string]any)
			k.Log("foreign change of %s: %s", key, canon(p))
			x := refPatch(copyMap(o.UnstructuredContent()), p).(map[string]any)
			y := object.New()
			y.SetUnstructuredContent(x)
			err := e.raw.Update(ctx, y)
			k.Check(err == nil, "foreign update: %v", err)
			if e.sub && p["status"] != nil {
				x := refPatch(copyMap(y.UnstructuredContent()), m{"status": n["status"]}).(map[string]any)
				x["status"] = copyMap(n["status"].(map[string]any))
				y.SetUnstructuredContent(x)
				err := e.raw.Status().Update(ctx, y)
				k.Check(err == nil, "foreign status update: %v", err)
			}
			model[key] = twNorm(n)
		}
		snap(key)
	}
	var lastDelta *object.Delta
	for i, n := 0, 6+r.Intn(20); i < n; i++ {
		key := keys[r.Intn(len(keys))]
		if r.Intn(4) == 0 {
			foreign(key)
			compare("after a foreign change")
			continue
		}
		del := r.Intn(4) == 0
		c := twContent(r, patcher)
		if del && patcher && model[key] != nil && r.Intn(2) == 0 { // remove what is there
			c = twSubset(r, model[key]).(map[string]any)
			delete(c, "kind")
			delete(c, "apiVersion")
			if md := sub(c, "metadata"); len(md) > 0 {
				delete(md, "finalizers")
			}
		}
		d := object.Delta{Type: object.Deleted}
		if !del {
			d.Type = []object.DeltaType{object.Added, object.Updated, object.Upserted, object.Replaced}[r.Intn(4)]
		}
		d.Object = e.object(key, c)
		if r.Intn(6) == 0 { // carried over from a source object
			d.Object.SetResourceVersion(srcVersion)
			d.Object.SetUID(srcUID)
		}
		if lastDelta != nil && r.Intn(8) == 0 {
			d = *lastDelta
			d.Object = object.DeepCopy(d.Object)
			del = d.Type == object.Deleted
			key = d.Object.GetNamespace() + "/" + d.Object.GetName()
			c = d.Object.UnstructuredContent()
		}
		dd := object.Delta{Type: d.Type, Object: object.DeepCopy(d.Object)}
		lastDelta = &dd
		var orig object.Object
		if s := snaps[key]; len(s) > 0 && r.Intn(2) == 0 {
			orig = object.DeepCopy(s[len(s)-1-r.Intn(min(len(s), 3))])
			if r.Intn(5) == 0 {
				other := keys[r.Intn(len(keys))]
				if s := snaps[other]; len(s) > 0 {
					orig = object.DeepCopy(s[len(s)-1])
				}
			}
		}
		origText := ""
		if orig != nil {
			origText = canon(orig.UnstructuredContent())
		}
		deltaText := canon(d.Object.UnstructuredContent())
		k.Log("write %s %s %s (original %s)", d.Type, key, deltaText, origText)

		cur, exists := model[key]
		before := map[string]map[string]any{}
		for kk, v := range model {
			before[kk] = v
		}
		// fault injection: a failing call or a foreign change in the middle of the write
		fault, raced, vanished := "", false, false
		if kind != "view" && r.Intn(4) == 0 {
			op := pick(r, "get", "create", "update", "delete", "status", "race", "vanish")
			if op == "status" && del && hasList(c) {
				op = "update"
			}
			fired := false
			f := func(o2 string, o client.Object) error {
				if fired {
					return nil
				}
				if op == "race" && (o2 == "update" || o2 == "status") && exists {
					fired, raced = true, true
					foreignChange(k, e, model, key)
					return nil
				}
				if op == "vanish" && o2 == "update" && exists {
					fired, vanished = true, true
					vanish(key)
					return nil
				}
				if o2 == op {
					fired = true
					fault = op
					return apierrors.NewInternalError(errors.New("injected"))
				}
				return nil
			}
			e.hook.Store(&f)
		}
		err := tgt.Write(ctx, d, orig)
		e.hook.Store(nil)
		if fault != "" || raced {
			k.Log("fault %q raced %v: %v", fault, raced, err)
			k.Count("faults injected", 1)
			if fault != "" {
				if raced = false; fault == "create" && err == nil {
					k.Fail("a failed creation was not reported")
				}
				k.Check(err != nil || fault == "status", "write %s of %s: a failing %s call was not reported", d.Type, key, fault)
			}
			if err != nil { // nothing but this object may have changed; the retry must succeed
				err = tgt.Write(ctx, dd, orig)
				k.Check(err == nil || patcher && !del && !exists && apierrors.IsNotFound(err), "retry failed: %v", err)
			}
			cur, exists = model[key]
		}
		if vanished {
			k.Log("the object has disappeared in the middle of the write: %v", err)
			k.Count("objects disappearing during a write", 1)
			k.Check(err == nil || patcher && apierrors.IsNotFound(err), "write %s of %s fails when the object disappears: %v", d.Type, key, err)
			cur, exists = model[key]
		}
		k.Check(canon(d.Object.UnstructuredContent()) == deltaText, "the delta was modified by the write")
		k.Check(orig == nil || canon(orig.UnstructuredContent()) == origText, "the original object was modified by the write")

		switch {
		case patcher && !exists:
			if !del {
				k.Check(err != nil || orig != nil && kind != "view" || vanished, "patching the missing object %s succeeded", key)
				k.Count("patches of missing objects", 1)
			} else {
				k.Check(err == nil, "delete-patching the missing object %s fails: %v", key, err)
			}
		case patcher:
			k.Check(err == nil, "write %s of %s: %v", d.Type, key, err)
			model[key] = refPatcher(e, cur, key, c, del)
		case del:
			k.Check(err == nil, "deletion of %s: %v", key, err)
			if fin := sub(cur, "metadata")["finalizers"]; exists && kind != "view" && fin != nil {
				// stays around with a deletion timestamp: let it go
				o := object.New()
				o.SetGroupVersionKind(e.gvk)
				ns, name, _ := strings.Cut(key, "/")
				k.Check(e.raw.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, o) == nil, "get failed")
				k.Check(o.GetDeletionTimestamp() != nil, "object %s was not deleted", key)
				o.SetFinalizers(nil)
				k.Check(e.raw.Update(ctx, o) == nil, "update failed")
			}
			delete(model, key)
			reborn[key] = true
		default:
			k.Check(err == nil, "write %s of %s: %v", d.Type, key, err)
			w := refUpdater(e, cur, key, c)
			if _, ok := c["status"]; e.sub && !ok { // only the status subresource could change it
				if st := e.dump(k)[key]["status"]; st != nil && cur != nil && canon(st) == canon(cur["status"]) {
					w["status"] = st
				}
			}
			model[key] = w
		}
		compare(fmt.Sprintf("%s %s", d.Type, key))
		if canon(before) != canon(model) {
			k.Nontrivial("%s %s %v %s", kind, d.Type, canon(cur), deltaText)
			k.Count(fmt.Sprintf("effective %v", d.Type), 1)
		}
		// writing the same again changes nothing
		if err == nil && !vanished && r.Intn(3) == 0 && !(patcher && del && hasList(c)) {
			n := e.events.Load()
			err := tgt.Write(ctx, object.Delta{Type: dd.Type, Object: object.DeepCopy(dd.Object)}, orig)
			k.Check(err == nil, "repeated write %s of %s: %v", d.Type, key, err)
			if e.sub && !patcher && model[key] != nil {
				if _, ok := c["status"]; !ok {
					if st := e.dump(k)[key]["status"]; st == nil {
						delete(model[key], "status")
					}
				}
			}
			compare(fmt.Sprintf("repeated %s %s", d.Type, key))
			k.Check(e.events.Load() == n, "repeated write %s of %s caused %d events", d.Type, key, e.events.Load()-n)
			k.Count("repeats", 1)
		}
		snap(key)
	}
}

// hasList: list items are removed by position, so a repeated deletion may remove the next one.
func hasList(v any) bool {
	switch x := v.(type) {
	case []any:
		return len(x) > 0
	case map[string]any:
		for _, y := range x {
			if hasList(y) {
				return true
			}
		}
	}
	return false
}

// foreignChange is another client's change in the middle of a write.
func foreignChange(k *K, e *twenv, model map[string]map[string]any, key string) {
	ctx := context.Background()
	o := object.New()
	o.SetGroupVersionKind(e.gvk)
	ns, name, _ := strings.Cut(key, "/")
	if e.raw.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, o) != nil {
		return
	}
	lab := o.GetLabels()
	if lab == nil {
		lab = map[string]string{}
	}
	lab["foreign"] = fmt.Sprint(k.R.Intn(1000))
	o.SetLabels(lab)
	o.UnstructuredContent()["foreign"] = map[string]any{"v": lab["foreign"]}
	k.Log("foreign change in the middle of the write: %s", lab["foreign"])
	if err := e.raw.Update(ctx, o); err != nil {
		k.Fail("foreign update: %v", err)
	}
	n := copyMap(model[key])
	md := sub(n, "metadata")
	l2 := sub(md, "labels")
	l2["foreign"] = lab["foreign"]
	md["labels"] = l2
	n["metadata"] = md
	n["foreign"] = m{"v": lab["foreign"]}
	model[key] = n
}

// twSubset picks a random part of a document.
func twSubset(r *rand.Rand, v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := m{}
		for _, k := range sortedKeys(x) {
			if r.Intn(2) == 0 {
				out[k] = twSubset(r, x[k])
			}
		}
		return out
	case []any:
		out := l{}
		for _, y := range x {
			if r.Intn(4) == 0 {
				break
			}
			out = append(out, twSubset(r, y))
		}
		return out
	}
	return v
}

// c14concurrent: several controllers and a foreign client write the same objects at the same time.
// For Patchers every writer owns a field: no write may be lost. For Updaters the last state must be
// the complete content of a single writer, with the labels of all.
func c14concurrent(k *K, patcher bool, kind string) {
	r := k.R
	ctx := context.Background()
	e := newTwenv(k, kind)
	typ := opv1a1.Updater
	if patcher {
		typ = opv1a1.Patcher
	}
	key := "default/a"
	init := e.object(key, m{"spec": m{"keep": "me"}})
	k.Check(e.raw.Create(ctx, init) == nil, "create failed")
	stale := object.New()
	stale.SetGroupVersionKind(e.gvk)
	k.Check(e.raw.Get(ctx, client.ObjectKey{Namespace: "default", Name: "a"}, stale) == nil, "get failed")
	writers, rounds := 2+r.Intn(3), 3+r.Intn(8)
	var wg sync.WaitGroup
	seeds := make([]int64, writers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var retries atomic.Int64
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seeds[w]))
			tgt := reconciler.NewTarget(e.mgr, pOp, opv1a1.Target{Resource: e.res, Type: typ})
			f := fmt.Sprintf("f%d", w)
			for i := 1; i <= rounds; i++ {
				c := m{"spec": m{f: int64(i), "n": m{f: int64(i)}}, "status": m{f: int64(i)}, "metadata": m{"labels": m{f: fmt.Sprint(i)}}}
				typ := object.Upserted
				if patcher && rr.Intn(5) == 0 && i < rounds {
					typ = object.Deleted
				}
				var orig object.Object
				if rr.Intn(2) == 0 {
					orig = stale
				}
				for n := 0; ; n++ {
					err := tgt.Write(ctx, object.Delta{Type: typ, Object: e.object(key, c)}, orig)
					if err == nil {
						break
					}
					retries.Add(1)
					if n > 2000 {
						k.Report("writer %d cannot write: %v", w, err)
						return
					}
				}
				k.Eval(1)
			}
		}()
	}
	wg.Wait()
	got := e.dump(k)[key]
	k.Count("retries after conflicts", int(retries.Load()))
	k.Count("concurrent writes", writers*rounds)
	k.Max("concurrent writers", writers)
	k.Check(got != nil, "the object has disappeared")
	last := fmt.Sprint(rounds)
	if patcher {
		k.Check(sub(got, "spec")["keep"] == "me", "a field no patch contains was lost: %s", canon(got))
		for w := 0; w < writers; w++ {
			f := fmt.Sprintf("f%d", w)
			k.Check(fmt.Sprint(sub(got, "spec")[f]) == last && fmt.Sprint(sub(got, "status")[f]) == last &&
				fmt.Sprint(sub(sub(got, "spec"), "n")[f]) == last && fmt.Sprint(sub(sub(got, "metadata"), "labels")[f]) == last,
				"the last patch of writer %d (value %s) was lost: %s", w, last, canon(got))
		}
	} else {
		k.Check(len(sub(got, "spec")) == 2 && len(sub(got, "status")) == 1, "the object mixes the content of several writers: %s", canon(got))
		k.Check(kind == "view" || len(sub(sub(got, "metadata"), "labels")) == writers, "labels were lost: %s", canon(got))
		for f, v := range sub(got, "status") {
			k.Check(canon(sub(got, "spec")[f]) == canon(v), "the object mixes the content of several writers: %s", canon(got))
		}
	}
	k.Nontrivial("%s %v %d %d %s", kind, patcher, writers, rounds, canon(got))
}
