package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-logr/logr"
	apiextv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/util/workqueue"
	rtcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

// C17: one-shot and periodic sources.

func init() {
	checks["C17"] = func(c *Ctx) {
		c.Rule("evaluations = controller starts whose one-shot triggers were counted, periodic trigger sequences measured, and quiescent points at which targets that others had tampered with were compared with the pipeline results")
		c.Rule("distinct_nontrivial = distinct (controllers, sources, tampering) combinations and trigger traces")
		c.Assume("objects that others add to a target view are not removed by a periodic source, since an Updater does not own the entire view; labels and annotations that others add are kept")
		c.Section("one-shot sources", c.N(150, 4000), 8, c17oneShotSource)
		c.Section("one-shot controllers", c.N(120, 3000), 8, c17oneShot)
		c.Section("periodic sources", c.N(24, 300), 4, c17periodicSource)
		c.Section("restoring many targets", c.N(8, 60), 4, c17many)
		c.Section("drift of views", c.N(80, 3000), 8, func(k *K) { c17drift(k, nil, 0) })
		c.Section("drift of patched views", c.N(60, 2000), 8, func(k *K) { c17patchDrift(k, nil, 0) })
		const slots = 4
		c.withNative(slots, func(e *natEnv) {
			free := make(chan int, slots)
			for i := 0; i < slots; i++ {
				free <- i
			}
			run := func(fn func(k *K, e *natEnv, slot int)) func(k *K) {
				return func(k *K) {
					slot := <-free
					defer func() { free <- slot }()
					fn(k, e, slot)
				}
			}
			c.Section("drift of native resources", c.N(16, 300), slots, run(c17drift))
			c.Section("drift of patched native resources", c.N(12, 200), slots, run(c17patchDrift))
		})
	}
}

// tickQueue is a work queue that records what is added to it.
type tickQueue struct {
	workqueue.TypedRateLimitingInterface[reconciler.Request]
	mu   sync.Mutex
	reqs []reconciler.Request
	at   []time.Time
	busy int // requests of others waiting in the queue
}

func (q *tickQueue) Len() int { q.mu.Lock(); defer q.mu.Unlock(); return q.busy + len(q.reqs) }

func newTickQueue() *tickQueue {
	return &tickQueue{TypedRateLimitingInterface: workqueue.NewTypedRateLimitingQueue(
		workqueue.DefaultTypedControllerRateLimiter[reconciler.Request]())}
}

func (q *tickQueue) rec(r reconciler.Request) {
	q.mu.Lock()
	q.reqs = append(q.reqs, r)
	q.at = append(q.at, time.Now())
	q.mu.Unlock()
}

func (q *tickQueue) Add(r reconciler.Request)                       { q.rec(r) }
func (q *tickQueue) AddAfter(r reconciler.Request, _ time.Duration) { q.rec(r) }
func (q *tickQueue) AddRateLimited(r reconciler.Request)            { q.rec(r) }
func (q *tickQueue) n() int                                         { q.mu.Lock(); defer q.mu.Unlock(); return len(q.reqs) }
func (q *tickQueue) snapshot() ([]reconciler.Request, []time.Time) {
	q.mu.Lock()
	defer q.mu.Unlock()
	return append([]reconciler.Request{}, q.reqs...), append([]time.Time{}, q.at...)
}

// c17mgr makes a headless manager on a shared view store.
func c17mgr(k *K, vc *cache.ViewCache) manager.Manager {
	mgr, err := manager.New(nil, manager.Options{
		NewCache: func(_ *rest.Config, opts rtcache.Options) (rtcache.Cache, error) {
			return cache.NewDelegatingViewCache(vc, cache.CacheOptions{Options: opts}), nil
		},
		Logger:  logr.Discard(),
		Metrics: metricsserver.Options{BindAddress: "0"},
	})
	k.Check(err == nil, "manager: %v", err)
	return mgr
}

func listOf(g schema.GroupVersionKind) *unstructured.UnstructuredList {
	list := &unstructured.UnstructuredList{}
	list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
	return list
}

// triggerStorm changes the trigger view in arbitrary ways.
func triggerStorm(r *rand.Rand, cl client.Client, g schema.GroupVersionKind, n int) []string {
	ctx := context.Background()
	var out []string
	for i := 0; i < n; i++ {
		o := object.New()
		o.SetGroupVersionKind(g)
		o.SetName([]string{"one-shot-trigger", "x", "y", "periodic-trigger"}[r.Intn(4)])
		if r.Intn(4) == 0 {
			o.SetNamespace("default")
		}
		o.SetLabels(map[string]string{"round": fmt.Sprint(i), "r": fmt.Sprint(r.Intn(1000))})
		var err error
		op := ""
		switch r.Intn(4) {
		case 0, 1:
			op, err = "create", cl.Create(ctx, o)
		case 2:
			op, err = "update", cl.Update(ctx, o)
		default:
			op, err = "delete", cl.Delete(ctx, o)
		}
		out = append(out, fmt.Sprintf("%s %s/%s (%v)", op, o.GetNamespace(), o.GetName(), err == nil))
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	return out
}

// c17oneShotSource counts the requests that one-shot sources enqueue.
func c17oneShotSource(k *K) {
	r := k.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	store := cache.NewViewCache(cache.CacheOptions{Logger: logr.Discard()})
	go store.Start(ctx) //nolint:errcheck
	mgr := c17mgr(k, store)
	go mgr.Start(ctx) //nolint:errcheck
	vc := store.GetClient()

	type run struct {
		g     schema.GroupVersionKind
		q     *tickQueue
		what  string
		start func()
	}
	var runs []*run
	kinds := []string{"Init", "Other"}
	var wg sync.WaitGroup
	storm := func() {
		rr := rand.New(rand.NewSource(r.Int63()))
		g := opGVK("op", pick(rr, kinds...))
		n := 1 + rr.Intn(8)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range triggerStorm(rr, vc, g, n) {
				k.Log("%s: %s", g.Kind, s)
			}
		}()
	}
	if r.Intn(2) == 0 {
		storm()
	}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		g := opGVK("op", pick(r, kinds...))
		s := reconciler.NewSource(mgr, "op", opv1a1.Source{Resource: opv1a1.Resource{Kind: g.Kind}, Type: opv1a1.OneShot})
		src, err := s.GetSource()
		k.Check(err == nil, "GetSource: %v", err)
		rn := &run{g: g, q: newTickQueue(), what: fmt.Sprintf("source %d of kind %s", i, g.Kind)}
		rn.start = func() {
			k.Log("starting %s", rn.what)
			k.Within("starting "+rn.what, 30*time.Second, func() {
				if err := src.Start(ctx, rn.q); err != nil {
					k.Report("%s does not start: %v", rn.what, err)
				}
				if ss, ok := src.(interface{ WaitForSync(context.Context) error }); ok {
					if err := ss.WaitForSync(ctx); err != nil {
						k.Report("%s does not sync: %v", rn.what, err)
					}
				}
			})
		}
		runs = append(runs, rn)
		if r.Intn(3) == 0 {
			storm()
		}
		if r.Intn(2) == 0 {
			rn.start()
			rn.start = nil
		}
	}
	for _, i := range r.Perm(n) {
		if runs[i].start != nil {
			runs[i].start()
		}
	}
	storm()
	k.Within("writers", 30*time.Second, wg.Wait)
	deadline := time.Now().Add(30 * time.Second)
	for _, rn := range runs {
		for rn.q.n() == 0 && time.Now().Before(deadline) {
			time.Sleep(time.Millisecond)
		}
	}
	time.Sleep(time.Duration(2+r.Intn(10)) * time.Millisecond)
	sig := ""
	for _, rn := range runs {
		reqs, _ := rn.q.snapshot()
		if len(reqs) != 1 {
			k.Fail("%s triggers %d times: %v", rn.what, len(reqs), reqs)
		}
		q := reqs[0]
		if q.EventType != object.Added || q.GVK != rn.g || q.Object == nil {
			k.Fail("%s: unexpected request %v", rn.what, q)
		}
		o := copyMap(q.Object.UnstructuredContent())
		md, _ := isObj(o["metadata"])
		delete(o, "apiVersion")
		delete(o, "kind")
		for _, f := range []string{"name", "namespace", "labels", "uid", "resourceVersion", "creationTimestamp", "generation"} {
			delete(md, f)
		}
		if len(o) != 1 || len(md) != 0 {
			k.Fail("%s: the object is not empty: %v", rn.what, q.Object)
		}
		k.Eval(1)
		sig += rn.what
	}
	k.Count("one_shot_sources", n)
	k.Nontrivial("src %s %d", sig, k.Index)
}

// c17oneShot runs operators with one-shot sources and watches the objects they produce.
func c17oneShot(k *K) {
	r := k.R
	log := logr.Discard()
	if r.Intn(3) == 0 {
		log = jitterLog(r.Int63(), uint64(20+r.Intn(200)))
	}
	w := newWorld(k, log)
	defer w.close()
	names := []string{"aop", "bop"}[:1+r.Intn(2)]
	type tgt struct {
		g, trig schema.GroupVersionKind
		op      string
		evs     *atomic.Int64
	}
	var tgts []*tgt
	mk := func() map[string][]*ctrlSpec {
		out := map[string][]*ctrlSpec{}
		for _, t := range tgts {
			proj := m{"metadata": m{"name": m{"@concat": l{"t-", "$.metadata.name"}}, "namespace": "ns"},
				"spec": m{"a": 1, "when": "$.metadata.labels[\"dcontroller.io/last-triggered\"]", "s": "$.spec"}}
			c := &ctrlSpec{name: "c-" + t.g.Kind, op: t.op, p: &pspec{stages: []stage{{"@project", proj}}, kinds: []string{t.trig.Kind},
				gvks: []schema.GroupVersionKind{t.trig}, target: t.g}}
			c.configure(k, opv1a1.Updater)
			c.conf.Sources[0].Type = opv1a1.OneShot
			if r.Intn(3) == 0 { // a second source must not matter
				c.conf.Sources = append(c.conf.Sources, opv1a1.Source{Resource: opv1a1.Resource{Kind: "Tick"}, Type: opv1a1.Periodic,
					Parameters: &apiextv1.JSON{Raw: []byte(`{"period": "3ms"}`)}})
			}
			out[t.op] = append(out[t.op], c)
		}
		return out
	}
	n := 1 + r.Intn(4)
	trigs := []string{"Init", "Init2"}[:1+r.Intn(2)]
	for i := 0; i < n; i++ {
		op := names[r.Intn(len(names))]
		tgts = append(tgts, &tgt{g: opGVK(op, fmt.Sprintf("T%d", i)), trig: opGVK(op, pick(r, trigs...)), op: op, evs: &atomic.Int64{}})
	}
	cl := w.shared.GetClient()
	for _, t := range tgts {
		t := t
		watcher, err := w.shared.Watch(w.ctx, listOf(t.g))
		k.Check(err == nil, "watch: %v", err)
		go func() {
			for e := range watcher.ResultChan() {
				t.evs.Add(1)
				k.Log("event %s on %s", e.Type, t.g.Kind)
			}
		}()
	}
	var wg sync.WaitGroup
	storm := func() {
		rr := rand.New(rand.NewSource(r.Int63()))
		t := tgts[rr.Intn(len(tgts))]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range triggerStorm(rr, cl, t.trig, 1+rr.Intn(6)) {
				k.Log("%s: %s", t.trig.Kind, s)
			}
		}()
	}
	starts := map[string]int{}
	up := map[string]*opRun{}
	start := func(op string) {
		cs := mk()[op]
		if len(cs) == 0 {
			return
		}
		o := w.create(op, cs)
		up[op] = o
		starts[op]++
		w.start(o)
		w.ops = append(w.ops, o)
		k.Log("operator %s started", op)
	}
	check := func(what string) {
		k.Within("writers", 30*time.Second, wg.Wait)
		deadline := time.Now().Add(30 * time.Second)
		for _, t := range tgts {
			for t.evs.Load() < int64(starts[t.op]) && time.Now().Before(deadline) {
				time.Sleep(time.Millisecond)
			}
		}
		time.Sleep(time.Duration(3+r.Intn(8)) * time.Millisecond)
		for _, t := range tgts {
			if ev := t.evs.Load(); ev != int64(starts[t.op]) {
				k.Fail("%s: the target %s of a one-shot controller changed %d times after %d starts", what, t.g.Kind, ev, starts[t.op])
			}
			got := w.list(t.g)
			if o, ok := got["ns/t-one-shot-trigger"]; starts[t.op] > 0 && (!ok || len(got) != 1) {
				k.Fail("%s: the target of a one-shot controller is %v", what, sortedKeys(got))
			} else if ok {
				sp, _ := isObj(o["spec"])
				if s, _ := sp["when"].(string); s == "" || sp["s"] != nil {
					k.Fail("%s: unexpected target %s", what, canon(o))
				}
			}
			if starts[t.op] > 0 {
				k.Eval(1)
			}
		}
	}
	if r.Intn(2) == 0 {
		storm()
	}
	for _, op := range names {
		start(op)
		if r.Intn(2) == 0 {
			storm()
		}
	}
	check("after the start")
	for i := r.Intn(3); i > 0; i-- {
		storm()
		if r.Intn(2) == 0 { // restart
			op := names[r.Intn(len(names))]
			if o := up[op]; o != nil {
				w.stop(o)
				k.Count("restarts", 1)
				start(op)
			}
		}
		check("after changing the trigger view")
	}
	k.Count("one_shot_controllers", n)
	k.Nontrivial("ctrl %d %d %v %d", n, len(trigs), starts, k.Index)
}

func c17period(r *rand.Rand, ms int) *apiextv1.JSON {
	d := time.Duration(ms)*time.Millisecond + time.Duration(r.Intn(1000))*time.Microsecond
	return &apiextv1.JSON{Raw: []byte(fmt.Sprintf(`{"period": %q}`, d.String()))}
}

// c17periodicSource measures the triggers of periodic sources.
func c17periodicSource(k *K) {
	r := k.R
	mgr := c17mgr(k, cache.NewViewCache(cache.CacheOptions{Logger: logr.Discard()}))
	mk := func(params *apiextv1.JSON) reconciler.Source {
		return reconciler.NewSource(mgr, "op", opv1a1.Source{Resource: opv1a1.Resource{Kind: "Tick"}, Type: opv1a1.Periodic, Parameters: params})
	}
	// unusable periods
	for _, p := range []string{`{"period":"0s"}`, `{"period":"-1s"}`} {
		src, err := mk(&apiextv1.JSON{Raw: []byte(p)}).GetSource()
		if err == nil {
			k.Protect("start", func() {
				err = src.Start(context.Background(), newTickQueue())
			})
		}
		if err == nil {
			k.Report("a periodic source with parameters %s starts", p)
		}
	}
	for _, p := range []*apiextv1.JSON{nil, {}, {Raw: []byte(`{}`)}} {
		if s := mk(p).String(); !strings.Contains(s, "5m0s") {
			k.Report("default period: %s", s)
		}
	}
	period := time.Duration(3+r.Intn(10)) * time.Millisecond
	const ticks = 60
	slow := 0
	for attempt := 0; ; attempt++ {
		src, err := mk(&apiextv1.JSON{Raw: []byte(fmt.Sprintf(`{"period": %q}`, period))}).GetSource()
		k.Check(err == nil, "GetSource: %v", err)
		q := newTickQueue()
		q.busy = k.Index % 3 * 2
		ctx, cancel := context.WithCancel(context.Background())
		t0 := time.Now()
		if err := src.Start(ctx, q); err != nil {
			k.Fail("start: %v", err)
		}
		tk := time.NewTicker(period)
		for i := 0; i < ticks; i++ {
			<-tk.C
			if i == ticks/2 { // work going on in the queue must not matter
				k.Count("queued", q.n())
			}
		}
		tk.Stop()
		reqs, at := q.snapshot()
		cancel()
		for i, rq := range reqs {
			if rq.GVK != opGVK("op", "Tick") || rq.EventType != object.Updated {
				k.Fail("unexpected trigger %v", rq)
			}
			if min := time.Duration(i+1)*period - time.Millisecond/2; at[i].Sub(t0) < min {
				k.Fail("trigger %d of a source with period %s came after %s only", i+1, period, at[i].Sub(t0))
			}
		}
		k.Count("periodic_triggers", len(reqs))
		if len(reqs) < ticks/4 {
			// the same number of ticks of another timer elapsed: tolerate a starved goroutine twice
			if slow++; slow == 3 {
				k.Fail("a source with period %s triggered %d times only during %d periods", period, len(reqs), ticks)
			}
			continue
		}
		// no more triggers once stopped
		time.Sleep(2 * time.Millisecond)
		n := q.n()
		time.Sleep(5 * period)
		if q.n() > n+1 {
			k.Fail("a stopped source keeps triggering: %d, later %d", n, q.n())
		}
		break
	}
	k.Eval(1)
	k.Nontrivial("periodic %v", period)
}

// c17drift lets others tamper with the targets of controllers that have a periodic source.
func c17drift(k *K, e *natEnv, slot int) {
	r := k.R
	var w *world
	if e != nil {
		e.clear(k, slot)
		w = newWorldOn(k, logr.Discard(), e, e.cfg, slot)
	} else {
		log := logr.Discard()
		if r.Intn(3) == 0 {
			log = jitterLog(r.Int63(), uint64(20+r.Intn(200)))
		}
		w = newWorld(k, log)
	}
	defer w.close()
	errs := 0
	if r.Intn(6) == 0 {
		errs = 4
	}
	ops := w.genOps(errs)
	var all []*ctrlSpec
	for i := range ops {
		if len(ops[i]) == 0 {
			continue
		}
		for _, c := range ops[i] {
			s := opv1a1.Source{Resource: opv1a1.Resource{Kind: pick(r, "Tick", "Sync")}, Type: opv1a1.Periodic, Parameters: c17period(r, 5+r.Intn(20))}
			if r.Intn(2) == 0 {
				c.conf.Sources = append(c.conf.Sources, s)
			} else {
				c.conf.Sources = append([]opv1a1.Source{s}, c.conf.Sources...)
			}
			all = append(all, c)
			k.Log("controller %s/%s %s", c.op, c.name, c.p)
		}
		w.ops = append(w.ops, w.create(ops[i][0].op, ops[i]))
	}
	names := 2 + r.Intn(4)
	w.burst(1+r.Intn(2), 2+r.Intn(12), names, nil)
	for _, o := range w.ops {
		w.start(o)
	}
	foreign := map[string]bool{}
	var fmu sync.Mutex
	extra := func(ky string, _ map[string]any) bool { fmu.Lock(); defer fmu.Unlock(); return foreign[ky] }
	w.settle("after the start", extra, nil)
	for round := 1 + r.Intn(3); round > 0; round-- {
		done := make(chan struct{})
		rr := rand.New(rand.NewSource(r.Int63()))
		tampered := 0
		tamper := func() {
			defer close(done)
			for i := 1 + rr.Intn(8); i > 0; i-- {
				c := all[rr.Intn(len(all))]
				w.tamper(rr, c.p.target, func(ky string) { fmu.Lock(); foreign[c.p.target.String()+"|"+ky] = true; fmu.Unlock() })
				tampered++
				if rr.Intn(2) == 0 {
					time.Sleep(time.Duration(rr.Intn(2000)) * time.Microsecond)
				}
			}
		}
		if r.Intn(2) == 0 {
			go tamper()
			w.burst(1, 1+r.Intn(8), names, nil)
		} else {
			go tamper()
		}
		<-done
		k.Count("tamperings", tampered)
		w.settle("after tampering with the targets", extra, nil)
		k.Eval(1)
		k.Nontrivial("%s %d", all[0].p, k.Index)
	}
}

// c17many has every target object destroyed at once: a single trigger must restore all of them,
// so the number of triggers available until the deadline is much smaller than the number of objects.
func c17many(k *K) {
	r := k.R
	w := newWorld(k, logr.Discard())
	defer w.close()
	src, tg := opGVK("aop", "Alpha"), opGVK("aop", "T1")
	w.kinds = append(w.kinds, src)
	proj := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "spec": m{"i": "$.spec.i"}}
	c := &ctrlSpec{name: "c", op: "aop", p: &pspec{stages: []stage{{"@project", proj}}, kinds: []string{"Alpha"}, gvks: []schema.GroupVersionKind{src}, target: tg}}
	c.configure(k, opv1a1.Updater)
	c.conf.Sources = append(c.conf.Sources, opv1a1.Source{Resource: opv1a1.Resource{Kind: "Tick"}, Type: opv1a1.Periodic,
		Parameters: &apiextv1.JSON{Raw: []byte(`{"period":"700ms"}`)}})
	o := w.create("aop", []*ctrlSpec{c})
	w.ops = append(w.ops, o)
	ctx := context.Background()
	n := 60 + r.Intn(60)
	for i := 0; i < n; i++ {
		s := vobjKey(src, fmt.Sprintf("ns%d/o%d", i%3, i))
		s.Object["spec"] = map[string]any{"i": int64(i)}
		k.Check(w.client(src).Create(ctx, s) == nil, "create source")
	}
	w.start(o)
	w.settle("after the start", nil, nil)
	// destroy and change targets, and change some sources so that the pipeline has its own changes too
	cl := w.client(tg)
	for ky, t := range w.listRaw(tg) {
		x := vobjKey(tg, ky)
		switch r.Intn(3) {
		case 0:
			x.Object = copyMap(t)
			x.Object["spec"] = map[string]any{"tampered": true}
			if err := cl.Update(ctx, x); err != nil && !apierrors.IsNotFound(err) {
				k.Report("update target %s: %v", ky, err)
			}
		default:
			if err := cl.Delete(ctx, x); err != nil && !apierrors.IsNotFound(err) {
				k.Report("delete target %s: %v", ky, err)
			}
		}
	}
	k.Count("tamperings", n)
	t0 := time.Now()
	w.settle("after all targets have been destroyed", nil, nil)
	d := time.Since(t0)
	k.Max("restore_ms_max", int(d.Milliseconds()))
	if d > 25*time.Second {
		k.Fail("restoring %d target objects took %s with a trigger in every 700ms", n, d)
	}
	k.Eval(1)
	k.Nontrivial("many %d %d", n, k.Index)
}

// tamper changes a target behind the back of its controller.
func (w *world) tamper(r *rand.Rand, g schema.GroupVersionKind, foreign func(string)) {
	k := w.k
	ctx := context.Background()
	cl := w.client(g)
	content := w.listRaw(g)
	keys := sortedKeys(content)
	what := ""
	var err error
	if len(keys) == 0 || r.Intn(6) == 0 {
		ky := "default/zz-" + fmt.Sprint(r.Intn(3))
		o := vobjKey(g, ky)
		o.Object["spec"] = map[string]any{"foreign": true, "s": "x", "i": int64(r.Intn(3))}
		foreign(ky)
		what, err = "create "+ky, cl.Create(ctx, o)
	} else {
		ky := keys[r.Intn(len(keys))]
		o := vobjKey(g, ky)
		if r.Intn(2) == 0 {
			what, err = "delete "+ky, cl.Delete(ctx, o)
		} else {
			o.Object = copyMap(content[ky])
			switch r.Intn(4) {
			case 0:
				delete(o.Object, "spec")
			case 1:
				o.Object["spec"] = map[string]any{"tampered": true}
			case 2:
				if isNative(g) {
					o.Object["spec"] = map[string]any{"tampered": int64(2)}
				} else {
					o.Object["bogus"] = map[string]any{"x": int64(1)}
				}
			default:
				ls := o.GetLabels()
				for l := range ls {
					ls[l] = "tampered"
				}
				if ls == nil {
					ls = map[string]string{"foreign": "1"}
				}
				o.SetLabels(ls)
				o.Object["spec"] = map[string]any{"tampered": "x"}
			}
			what, err = "update "+ky, cl.Update(ctx, o)
		}
	}
	if err != nil && !apierrors.IsNotFound(err) && !apierrors.IsAlreadyExists(err) && !apierrors.IsConflict(err) {
		k.Report("tampering: %s in %s failed: %v", what, g.Kind, err)
	}
	k.Log("tampering: %s in %s (%v)", what, g.Kind, err == nil)
}

// within tells whether a patch changes nothing on a value.
func patchWithin(p, v any) bool {
	pm, ok := isObj(p)
	if !ok {
		return canon(intify(p)) == canon(intify(v))
	}
	vm, ok := isObj(v)
	if !ok {
		return false
	}
	for f, x := range pm {
		if !patchWithin(x, vm[f]) {
			return false
		}
	}
	return true
}

// c17patchDrift is the same for a Patcher.
func c17patchDrift(k *K, e *natEnv, slot int) {
	r := k.R
	var w *world
	src, tg := opGVK("aop", "Alpha"), opGVK("aop", "T1")
	if e != nil {
		e.clear(k, slot)
		w = newWorldOn(k, logr.Discard(), e, e.cfg, slot)
		tg = natGVK(slot, "T1")
		if r.Intn(2) == 0 {
			src = natGVK(slot, "Alpha")
		}
	} else {
		w = newWorld(k, logr.Discard())
	}
	defer w.close()
	w.kinds = append(w.kinds, src)
	proj := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"},
		"spec": m{"p": m{"i": "$.spec.i", "c": "const"}, "s": "$.spec.s"}}
	c := &ctrlSpec{name: "c", op: "aop", p: &pspec{stages: []stage{{"@project", proj}}, kinds: []string{"Alpha"}, gvks: []schema.GroupVersionKind{src}, target: tg}}
	c.configure(k, opv1a1.Patcher)
	c.conf.Sources = append(c.conf.Sources, opv1a1.Source{Resource: opv1a1.Resource{Kind: "Tick"}, Type: opv1a1.Periodic, Parameters: c17period(r, 5+r.Intn(20))})
	o := w.create("aop", []*ctrlSpec{c})
	w.ops = append(w.ops, o)
	cl := w.client(tg)
	ctx := context.Background()
	mkTarget := func(ky string) error {
		t := vobjKey(tg, ky)
		t.Object["spec"] = map[string]any{"own": "mine", "p": map[string]any{"own": int64(1)}}
		return cl.Create(ctx, t)
	}
	keys := []string{"default/a", "default/b", "other/a", "other/b"}
	for _, ky := range keys {
		if err := mkTarget(ky); err != nil {
			k.Fail("create target: %v", err)
		}
	}
	w.burst(1, 2+r.Intn(8), 2, nil)
	w.start(o)
	settle := func(what string) {
		deadline := time.Now().Add(60 * time.Second)
		for stable := 0; stable < 3; {
			ss, ts := w.listRaw(src), w.listRaw(tg)
			bad, n := "", 0
			for _, ky := range keys {
				t, ok := ts[ky]
				if !ok {
					k.Fail("%s: target %s has disappeared", what, ky)
				}
				if !patchWithin(map[string]any{"own": "mine", "p": map[string]any{"own": int64(1)}}, t["spec"]) {
					k.Fail("%s: target %s has lost fields of others: %s", what, ky, canon(t))
				}
				s, ok := ss[ky]
				if !ok {
					continue
				}
				sp, _ := isObj(s["spec"])
				want := map[string]any{"p": map[string]any{"i": sp["i"], "c": "const"}, "s": sp["s"]}
				if sp["i"] == nil || sp["s"] == nil {
					continue // deleting fields is another matter
				}
				n++
				if !patchWithin(want, t["spec"]) {
					bad = fmt.Sprintf("target %s is %s, the patch is %s", ky, canon(t["spec"]), canon(want))
				}
			}
			if bad == "" {
				stable++
				k.Count("patched_objects_compared", n)
				time.Sleep(2 * time.Millisecond)
				continue
			}
			stable = 0
			if time.Now().After(deadline) {
				k.Log("last error %v", o.last.Load())
				k.Fail("%s: the targets do not converge: %s", what, bad)
			}
			time.Sleep(2 * time.Millisecond)
		}
		k.Eval(1)
	}
	settle("after the start")
	for round := 1 + r.Intn(3); round > 0; round-- {
		for i := 1 + r.Intn(5); i > 0; i-- {
			ky := pick(r, keys...)
			t := vobjKey(tg, ky)
			what := ""
			var err error
			if r.Intn(3) == 0 {
				what = "recreate"
				if err = cl.Delete(ctx, t); err == nil {
					err = mkTarget(ky)
				}
			} else {
				what = "overwrite"
				body := js(map[string]any{"spec": map[string]any{"s": "tampered", "p": map[string]any{"i": r.Intn(90) + 10, "c": nil}}})
				err = cl.Patch(ctx, t, client.RawPatch("application/merge-patch+json", []byte(body)))
			}
			if err != nil {
				k.Fail("tampering: %s %s failed: %v", what, ky, err)
			}
			k.Log("tampering: %s %s", what, ky)
			k.Count("tamperings", 1)
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		}
		if r.Intn(2) == 0 {
			w.burst(1, 1+r.Intn(5), 2, nil)
		}
		settle("after tampering with the targets")
		k.Nontrivial("patch %v %d", src, k.Index)
	}
}
