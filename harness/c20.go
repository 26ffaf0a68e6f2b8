package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"k8s.io/apimachinery/pkg/runtime/schema"
	toolscache "k8s.io/client-go/tools/cache"
	ctrlcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

// C20: concurrent use of the control plane is free of data races, crashes and deadlocks. The harness
// is built with the race detector; the parent process judges its reports and crashes of the child.
// The workloads of other properties are rerun here for their concurrency: what else they find is
// judged by the checks of those properties.

func init() {
	checks["C20"] = func(c *Ctx) {
		c.crashOnly = true
		c.Rule("evaluations = workload cases, and the observations made in them, run to their end under the race detector without a report, crash or hang")
		c.Rule("distinct_nontrivial = distinct (operation, concurrent operations in flight) pairs observed by the mixed workload, plus the distinct histories of the reused workloads")
		c.Assume("objects returned by reads and delivered to handlers are not modified by their receivers (C09 checks that nothing is shared)")
		c.Section("store", c.N(40, 400), 2, c10stress)
		c.Section("observers", c.N(80, 800), 4, func(k *K) { c11multi(k, k.Index%2 == 0) })
		c.Section("events", c.N(120, 1000), 4, func(k *K) { c11order(k, k.Index%2 == 0) })
		c.Section("bursts", c.N(3, 40), 3, c11burst)
		c.Section("reentrant handlers", c.N(16, 300), 4, c11reenter)
		c.Section("informer life cycle", c.N(80, 800), 4, c12lifecycle)
		c.Section("names", c.N(60, 1000), 4, c20names)
		c.SectionT("mix", c.N(24, 200), 4, 200*time.Second, c20mix)
		c.Section("error reporter", c.N(16, 300), 4, c18concurrent)
		c.SectionT("failing controllers", c.N(6, 100), 4, 200*time.Second, c18failing)
		c.SectionT("converging controllers", c.N(24, 200), 4, 200*time.Second, func(k *K) { c16views(k, k.Index%2 == 0) })
		c.SectionT("periodic sources", c.N(4, 60), 4, 200*time.Second, c17periodicSource)
		c.SectionT("targets", c.N(16, 300), 4, 200*time.Second, func(k *K) { c14concurrent(k, k.Index%2 == 0, "view") })
		c.SectionT("API groups", c.N(10, 100), 4, 200*time.Second, c19registry)
		c.SectionT("REST watchers", c.N(8, 60), 4, 300*time.Second, c21watch)
		c.withNative(1, func(e *natEnv) {
			c.SectionT("operators", c.N(5, 100), 4, 300*time.Second, func(k *K) { c19run(k, e, false) })
			c.SectionT("operator resources", c.N(2, 30), 1, 300*time.Second, func(k *K) { c19run(k, e, true) })
			c.SectionT("native resources", c.N(2, 40), 1, 300*time.Second, func(k *K) { c16native(k, e, 0) })
		})
	}
}

// c20par runs the workers until the bounded amount of work of each is done.
func c20par(k *K, limit time.Duration, fns ...func(r *rand.Rand)) {
	var wg sync.WaitGroup
	for _, fn := range fns {
		r := rand.New(rand.NewSource(k.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(abortCase); !ok {
						k.Report("panic: %v", x)
					}
				}
			}()
			fn(r)
		}()
	}
	k.Within("concurrent operations", limit, wg.Wait)
}

// c20names: kinds come and go while they are looked up.
func c20names(k *K) {
	d := cache.NewViewDiscovery()
	m := cache.NewViewRESTMapper()
	gvk := func(r *rand.Rand) schema.GroupVersionKind {
		return opGVK(pick(r, "a", "b", "c.d"), pick(r, "Alpha", "AlphaList", "Beta", "beta", "Gamma"))
	}
	change := func(r *rand.Rand) {
		for i := 0; i < 60; i++ {
			if g := gvk(r); r.Intn(2) == 0 {
				_ = d.RegisterViewGVK(g)
			} else {
				_ = d.UnregisterViewGVK(g)
			}
		}
	}
	look := func(r *rand.Rand) {
		for i := 0; i < 60; i++ {
			g := gvk(r)
			switch r.Intn(10) {
			case 0:
				_, _ = d.ServerGroups()
			case 1:
				_, _, _ = d.ServerGroupsAndResources()
			case 2:
				l, _ := d.ServerResourcesForGroupVersion(g.GroupVersion().String())
				_ = fmt.Sprint(l)
			case 3:
				_, _ = d.ServerPreferredResources()
			case 4:
				_ = len(d.GetRegisteredViewGVKs())
			case 5:
				_, _ = m.RESTMapping(g.GroupKind(), g.Version)
			case 6:
				_, _ = m.KindFor(schema.GroupVersionResource{Group: g.Group, Resource: strings.ToLower(g.Kind)})
			case 7:
				_, _ = m.ResourcesFor(schema.GroupVersionResource{Group: g.Group, Version: g.Version, Resource: strings.ToLower(g.Kind)})
			case 8:
				_, _ = m.RESTMappings(g.GroupKind())
			default:
				_ = d.IsViewKind(g)
			}
		}
	}
	k.Protect("discovery", func() { c20par(k, 60*time.Second, change, change, look, look, look) })
	k.Nontrivial("names %d", k.Index)
}

// c20flight counts the operations in flight: the evidence tells which ones met.
type c20flight struct {
	k  *K
	n  [16]atomic.Int32
	op []string
}

func (f *c20flight) do(op int, fn func()) {
	f.n[op].Add(1)
	for i := range f.op {
		if c := f.n[i].Load(); c > 1 || i != op && c > 0 {
			f.k.Nontrivial("%s while %s", f.op[op], f.op[i])
			f.k.Count("concurrent operation pairs observed", 1)
		}
	}
	fn()
	f.n[op].Add(-1)
}

// c20mix: everything at once on one process: writers and readers of the store on all access paths,
// informers and watches that come and go, operators that start and stop, status queries, API groups
// that come and go and requests through the API server.
func c20mix(k *K) {
	r := k.R
	log := jitterLog(r.Int63(), uint64(10+r.Intn(100)))
	api, err := cache.NewAPI(nil, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: log}, Logger: log})
	k.Check(err == nil, "API: %v", err)
	w := &world{k: k, log: log, api: api, shared: api.GetCache().GetViewCache().(*cache.ViewCache)}
	w.ctx, w.cancel = context.WithCancel(context.Background())
	defer w.close()
	go api.Cache.Start(w.ctx) //nolint:errcheck
	s, err := newRESTOn(api, "http", log)
	k.Check(err == nil, "API server: %v", err)
	defer s.stop()
	ctx := w.ctx
	vc := w.shared
	kinds := []schema.GroupVersionKind{opGVK("a", "In"), opGVK("a", "Out"), opGVK("b", "Out"), opGVK("b", "Final")}
	_ = s.srv.RegisterGVKs(kinds[:2])
	f := &c20flight{k: k, op: []string{"write", "read", "list", "informer", "handler", "watch", "operator", "status", "registration", "request", "discovery", "remove informer", "request watch", "index"}}
	n := k.N(20, 40)
	pipe := func(r *rand.Rand, ver int) []any {
		return []any{m{"@project": m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "ver": ver, "spec": "$.spec"}}}
	}
	obj := func(r *rand.Rand) object.Object {
		g := kinds[r.Intn(len(kinds))]
		return robj(g, pick(r, "n1", "n2"), fmt.Sprintf("o%d", r.Intn(4)), m{"spec": m{"v": int64(r.Intn(1000)), "l": []any{int64(1), "x"}}})
	}
	del := cache.NewDelegatingViewCache(vc, cache.CacheOptions{Logger: log})
	go del.Start(ctx) //nolint:errcheck
	caches := []cache.ViewCacheInterface{vc, del}
	clients := []client.WithWatch{vc.GetClient(), del.GetClient()}
	touch := func(x any) { // reads what it is given, as any consumer does
		if o, ok := x.(object.Object); ok {
			_ = len(js(o.UnstructuredContent()))
		}
	}
	writer := func(r *rand.Rand) {
		cl := clients[r.Intn(2)]
		for i := 0; i < 4*n; i++ {
			o := obj(r)
			o.SetLabels(map[string]string{"l": pick(r, "1", "2")})
			f.do(0, func() {
				switch r.Intn(6) {
				case 0:
					_ = cl.Delete(ctx, o)
				case 1:
					_ = cl.Patch(ctx, o, client.RawPatch("application/merge-patch+json", []byte(fmt.Sprintf(`{"p":{"x":%d}}`, i))))
				case 2:
					_ = cl.Update(ctx, o)
				case 3:
					_ = cl.Status().Update(ctx, o)
				default:
					_ = cl.Create(ctx, o)
				}
			})
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
	}
	reader := func(r *rand.Rand) {
		cl := clients[r.Intn(2)]
		for i := 0; i < 4*n; i++ {
			o := obj(r)
			if r.Intn(2) == 0 {
				f.do(1, func() {
					if cl.Get(ctx, client.ObjectKeyFromObject(o), o) == nil {
						touch(o)
					}
				})
				continue
			}
			l := cache.NewViewObjectList(strings.SplitN(o.GetObjectKind().GroupVersionKind().Group, ".", 2)[0], o.GetKind())
			var opts []client.ListOption
			if r.Intn(2) == 0 {
				opts = append(opts, client.MatchingLabels{"l": "1"})
			}
			if r.Intn(2) == 0 {
				opts = append(opts, client.InNamespace("n1"))
			}
			f.do(2, func() {
				if cl.List(ctx, l, opts...) == nil {
					for i := range l.Items {
						touch(&l.Items[i])
					}
				}
			})
		}
	}
	handler := toolscache.ResourceEventHandlerFuncs{
		AddFunc: touch, UpdateFunc: func(a, b any) { touch(a); touch(b) }, DeleteFunc: touch}
	informers := func(r *rand.Rand) {
		for i := 0; i < n; i++ {
			c := caches[r.Intn(2)]
			g := kinds[r.Intn(len(kinds))]
			o := object.New()
			o.SetGroupVersionKind(g)
			var inf ctrlcache.Informer
			var err error
			f.do(3, func() {
				if r.Intn(2) == 0 {
					inf, err = c.GetInformerForKind(ctx, g)
				} else {
					inf, err = c.GetInformer(ctx, o)
				}
			})
			if err != nil {
				continue
			}
			var regs []toolscache.ResourceEventHandlerRegistration
			for j := r.Intn(3); j >= 0; j-- {
				f.do(4, func() {
					if h, err := inf.AddEventHandler(handler); err == nil {
						regs = append(regs, h)
					}
				})
			}
			_, _ = inf.HasSynced(), inf.IsStopped()
			time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
			for _, h := range regs {
				_ = h.HasSynced()
				if r.Intn(4) > 0 {
					f.do(4, func() { _ = inf.RemoveEventHandler(h) })
				}
			}
			if r.Intn(5) == 0 {
				f.do(11, func() { _ = c.RemoveInformer(ctx, o) })
			}
			if r.Intn(5) == 0 {
				f.do(13, func() {
					_ = c.IndexField(ctx, o, "spec.v", func(client.Object) []string { return nil })
				})
			}
			if r.Intn(8) == 0 {
				_ = c.WaitForCacheSync(ctx)
			}
		}
	}
	watcher := func(r *rand.Rand) {
		for i := 0; i < n; i++ {
			g := kinds[r.Intn(len(kinds))]
			l := cache.NewViewObjectList(strings.SplitN(g.Group, ".", 2)[0], g.Kind)
			wctx, cancel := context.WithCancel(ctx)
			f.do(5, func() {
				wi, err := clients[r.Intn(2)].Watch(wctx, l)
				if err != nil {
					return
				}
				t := time.After(time.Duration(r.Intn(3000)) * time.Microsecond)
			loop:
				for {
					select {
					case e, ok := <-wi.ResultChan():
						if !ok {
							break loop
						}
						touch(e.Object)
					case <-t:
						break loop
					}
				}
				if r.Intn(2) == 0 {
					cancel()
				}
				wi.Stop()
				if r.Intn(3) == 0 {
					wi.Stop() // repeated
				}
			})
			cancel()
		}
	}
	operators := func(r *rand.Rand) {
		for i := 0; i < n/5; i++ {
			name := pick(r, "a", "b")
			src, dst := kinds[0], "Out"
			if name == "b" {
				src, dst = kinds[1], pick(r, "Out", "Final")
			}
			typ := opv1a1.TargetType(pick(r, "Updater", "Patcher"))
			if typ == "Patcher" {
				dst = "Out"
			}
			spec := &opv1a1.OperatorSpec{}
			conf := m{"controllers": []any{
				m{"name": "c1", "sources": []any{m{"kind": src.Kind, "apiGroup": src.Group, "version": src.Version}}, "target": m{"kind": dst, "type": string(typ)}, "pipeline": pipe(r, i)},
				m{"name": "c2", "sources": []any{m{"kind": "Tick", "type": "Periodic", "parameters": m{"period": "3ms"}}, m{"kind": src.Kind, "apiGroup": src.Group, "version": src.Version}},
					"target": m{"kind": "Other"}, "pipeline": []any{m{"@join": true}}},
				m{"name": "bad", "sources": []any{m{"kind": src.Kind}}, "target": m{"kind": "X"}, "pipeline": []any{m{"@project": m{"metadata": m{"name": "$.nope"}}}}},
			}}
			if json.Unmarshal([]byte(js(conf)), spec) != nil {
				k.Report("panic: the harness builds no specification")
				return
			}
			w2 := &world{k: k, log: log, shared: vc, api: api, ctx: ctx}
			var o *opRun
			f.do(6, func() { o = w2.create(name, nil) })
			if r.Intn(2) == 0 {
				o.op.AddSpec(spec)
				w2.start(o)
			} else {
				w2.start(o)
				o.op.AddSpec(spec)
			}
			stop := make(chan struct{})
			var sg sync.WaitGroup
			sg.Add(1)
			go func() {
				defer sg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						f.do(7, func() {
							_ = len(js(o.op.GetStatus(int64(i))))
							_ = len(o.op.GetGVKs())
							_ = o.op.GetController("c1")
						})
						time.Sleep(200 * time.Microsecond)
					}
				}
			}()
			if r.Intn(2) == 0 {
				f.do(8, func() { _ = s.srv.RegisterGVKs(o.op.GetGVKs()) })
			}
			time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
			if r.Intn(3) == 0 {
				f.do(8, func() { s.srv.UnregisterGVKs(o.op.GetGVKs()) })
			}
			f.do(6, func() { w2.stop(o) })
			time.Sleep(time.Millisecond)
			close(stop)
			sg.Wait()
		}
	}
	registry := func(r *rand.Rand) {
		for i := 0; i < n; i++ {
			f.do(8, func() {
				switch r.Intn(3) {
				case 0:
					s.srv.UnregisterGVKs(kinds[2*r.Intn(2):][:2])
				case 1:
					_ = s.srv.RegisterGVKs(kinds[2*r.Intn(2):][:1+r.Intn(2)])
				default:
					_ = s.srv.RegisterGVKs(append([]schema.GroupVersionKind{opGVK(fmt.Sprintf("x%d", r.Intn(3)), "K")}, kinds[:r.Intn(4)]...))
				}
			})
			time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
		}
	}
	requests := func(r *rand.Rand) {
		for i := 0; i < n; i++ {
			o := obj(r)
			g := o.GetObjectKind().GroupVersionKind()
			path, coll := restPath(g, o.GetNamespace(), o.GetName()), restPath(g, o.GetNamespace(), "")
			q := func(method, path, ctype string, body any) {
				f.do(9, func() {
					// any reply will do, as long as there is one
					if rep := s.do(method, path, "", ctype, body, 30*time.Second); rep.Code == 0 {
						k.Count("requests without a reply", 1)
					}
				})
			}
			switch r.Intn(10) {
			case 0:
				q("POST", coll, "application/json", o.UnstructuredContent())
			case 1:
				q("PUT", path, "application/json", o.UnstructuredContent())
			case 2:
				q("PATCH", path, "application/merge-patch+json", m{"rest": i})
			case 3:
				q("PATCH", path+"?fieldManager=x&force=true", "application/apply-patch+yaml", m{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": m{"name": o.GetName(), "namespace": o.GetNamespace()}, "applied": i})
			case 4:
				q("DELETE", path, "", nil)
			case 5:
				q("GET", coll, "", nil)
			case 6:
				q("DELETE", coll, "", nil)
			case 7:
				f.do(12, func() {
					s.do("GET", coll+"?watch=true&timeoutSeconds=1", "", "", nil, time.Duration(r.Intn(20))*time.Millisecond)
				})
			case 8:
				f.do(10, func() {
					for _, p := range []string{"/apis", "/apis/" + g.Group, "/apis/" + g.Group + "/" + g.Version, "/openapi/v2", "/openapi/v3"} {
						s.do("GET", p, "", "", nil, 30*time.Second)
					}
				})
			default:
				q("GET", path, "", nil)
			}
		}
	}
	c20par(k, 150*time.Second, writer, writer, reader, reader, informers, informers, watcher, operators, operators, registry, requests, requests)
}
