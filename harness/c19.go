package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"net/http"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-logr/logr"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"
	ctrl "sigs.k8s.io/controller-runtime"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/config"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/kubernetes/controllers"
	"github.com/l7mp/dcontroller/pkg/operator"
)

// C19: operators can be added, updated and removed without side effects.
//
// Every version of an operator stamps a globally unique version number and the input it has seen
// into the objects it writes. While inputs are written all the time, operators are added, updated
// and removed; whatever carries the version of an operator that has been replaced or removed must
// not change any more.

func init() {
	checks["C19"] = func(c *Ctx) {
		c.Rule("evaluations = operators whose complete views were compared with their current specification at a quiescent point; objects of replaced and removed operators checked to be frozen; API groups whose discovery documents and REST endpoints were compared with the operators that exist; requests that observed the views of an undisturbed operator; CRD statuses compared with the specification")
		c.Rule("distinct_nontrivial = distinct histories by operation, state of the operator and shape of the specification")
		c.Assume("an updated operator does not remove the objects its former version has written; the kinds of invalid controllers may or may not be served")
		c.SectionT("registry", c.N(80, 800), 4, 120*time.Second, c19registry)
		c.withNative(1, func(e *natEnv) {
			c.SectionT("direct", c.N(60, 600), 4, 300*time.Second, func(k *K) { c19run(k, e, false) })
			c.SectionT("backlog", c.N(10, 150), 2, 120*time.Second, func(k *K) { c19backlog(k, e) })
			c.SectionT("CRD", c.N(10, 100), 1, 300*time.Second, func(k *K) { c19run(k, e, true) })
		})
	}
}

var c19in = schema.GroupVersionKind{Group: "in.view.dcontroller.io", Version: "v1alpha1", Kind: "In"}

var c19kinds = []string{"T0", "T1", "T2", "Mid", "MidList", "tlow"}

// c19spec is a version of the specification of an operator.
type c19spec struct {
	ver     int
	op      string
	targets map[string]bool                    // kinds whose objects carry the version
	from    map[string]schema.GroupVersionKind // source views of the targets (default: the inputs)
	idle    map[string]bool                    // target kinds that stay empty
	may     map[string]bool                    // kinds that only invalid controllers mention
	valid   map[string]bool                    // controller names
	spec    *opv1a1.OperatorSpec
	shape   string
}

var c19ver atomic.Int64

func c19mkspec(k *K, r *rand.Rand, op string) *c19spec {
	s := &c19spec{ver: int(c19ver.Add(1)), op: op, targets: map[string]bool{}, from: map[string]schema.GroupVersionKind{}, idle: map[string]bool{}, may: map[string]bool{}, valid: map[string]bool{}}
	proj := func(extra m) []any {
		p := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "ver": s.ver, "n": "$.n"}
		maps.Copy(p, extra)
		return []any{m{"@project": p}}
	}
	in := m{"kind": c19in.Kind, "apiGroup": c19in.Group, "version": c19in.Version}
	var cs []any
	kinds := append([]string{}, c19kinds...)
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	nv, ninv := r.Intn(3), 0
	if r.Intn(3) == 0 {
		ninv = 1 + r.Intn(2)
	}
	if nv+ninv == 0 && r.Intn(3) > 0 {
		nv = 1
	}
	if nv == 0 && r.Intn(2) == 0 {
		nv = 1
	}
	for i := 0; i < nv; i++ {
		t := kinds[i]
		nm := fmt.Sprintf("c%d", i)
		src := []any{in}
		if i == 1 && r.Intn(2) == 0 { // chained
			src = []any{m{"kind": kinds[0]}}
			s.from[t] = opGVK(op, kinds[0])
			s.shape += "+"
		} else if r.Intn(4) == 0 { // a view of another operator
			src = []any{m{"kind": "T0", "apiGroup": opGVK("keeper", "T0").Group}}
			s.from[t] = opGVK("keeper", "T0")
			s.shape += "k"
		}
		tgt := m{"kind": t}
		switch r.Intn(4) {
		case 0:
			tgt["type"] = "Updater"
		case 1:
			tgt["apiGroup"] = opGVK(op, t).Group
		}
		cs = append(cs, m{"name": nm, "sources": src, "target": tgt, "pipeline": proj(nil)})
		s.targets[t] = true
		s.valid[nm] = true
		s.shape += "v"
	}
	if r.Intn(3) == 0 { // a view of an operator that does not exist, with a similar name
		g := opGVK(op, "X").Group
		cs = append(cs, m{"name": "idle", "sources": []any{m{"kind": "Foreign", "apiGroup": pick(r, "x."+g, "x"+g, op+".x.view.dcontroller.io", op+"x.view.dcontroller.io")}}, "target": m{"kind": "Idle"}, "pipeline": proj(nil)})
		s.idle["Idle"] = true
		s.valid["idle"] = true
		s.shape += "i"
	}
	for i := 0; i < ninv; i++ {
		t := kinds[len(kinds)-1-i]
		nm := fmt.Sprintf("bad%d", i)
		c := m{"name": nm, "sources": []any{in}, "target": m{"kind": t}, "pipeline": proj(nil)}
		switch x := r.Intn(5); x {
		case 0:
			c["sources"] = []any{}
			s.shape += "s"
		case 1:
			c["sources"] = []any{in, m{"kind": "Mid"}} // without a join
			if !s.targets["Mid"] {
				s.may["Mid"] = true
			}
			s.shape += "p"
		case 2:
			c["target"] = m{}
			s.shape += "t"
		case 3:
			c["sources"] = []any{m{"kind": c19in.Kind, "apiGroup": c19in.Group, "version": c19in.Version, "type": "Periodic", "parameters": m{"period": "never"}}}
			s.shape += "d"
		default:
			c["sources"] = []any{m{"kind": c19in.Kind, "apiGroup": c19in.Group, "version": c19in.Version, "labelSelector": m{"matchLabels": m{"a": "not a label value!"}}}}
			s.shape += "l"
		}
		if !s.targets[t] {
			s.may[t] = true
		}
		cs = append(cs, c)
	}
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	b, _ := json.Marshal(m{"controllers": cs})
	s.spec = &opv1a1.OperatorSpec{}
	if err := json.Unmarshal(b, s.spec); err != nil {
		k.Fail("spec %s: %v", b, err)
	}
	if len(cs) == 0 {
		s.spec.Controllers = []opv1a1.Controller{}
	}
	return s
}

type c19world struct {
	*world
	c       *controllers.OpController
	started bool
	mu      sync.Mutex
	cur     map[string]*c19spec          // operators that exist
	frozen  map[string]map[string]string // operator/kind/key -> content that must not change any more
	byVer   map[int]*c19spec             // all versions
	dead    map[int]bool                 // versions replaced or removed
	inputs  map[string]int               // what the sources hold
	groups  map[string]map[string]bool   // all operators and kinds ever used
	srv     *restServer                  // serves the operators now, if any
	old     *restServer                  // served them formerly
	names   []string
	swap    sync.RWMutex // an operator is not handed over with a former API server
}

func (w *c19world) kindsOf(op string) []schema.GroupVersionKind {
	var gs []schema.GroupVersionKind
	for _, kd := range c19kinds {
		gs = append(gs, opGVK(op, kd))
	}
	return gs
}

// freeze remembers the objects of the versions of an operator that no longer run.
func (w *c19world) freeze(op string) {
	snap := map[string]string{}
	for _, g := range w.kindsOf(op) {
		for _, o := range storeList(w.k, w.shared, g) {
			ver, ok := c19num(o.UnstructuredContent()["ver"])
			w.mu.Lock()
			if ok && w.dead[ver] {
				snap[g.Kind+"/"+o.GetNamespace()+"/"+o.GetName()] = c19content(o.UnstructuredContent())
			}
			w.mu.Unlock()
		}
	}
	w.mu.Lock()
	w.frozen[op] = snap
	w.mu.Unlock()
}

func c19num(v any) (int, bool) {
	switch x := v.(type) {
	case int64:
		return int(x), true
	case float64:
		return int(x), true
	case int:
		return x, true
	}
	return 0, false
}

func c19content(o map[string]any) string {
	a, _ := c19num(o["ver"])
	b, _ := c19num(o["n"])
	return fmt.Sprintf("ver=%d n=%d", a, b)
}

// checkFrozen verifies that the operators that no longer run have not written anything.
func (w *c19world) checkFrozen(op string) {
	for _, g := range w.kindsOf(op) {
		for _, o := range storeList(w.k, w.shared, g) {
			ver, ok := c19num(o.UnstructuredContent()["ver"])
			key := g.Kind + "/" + o.GetNamespace() + "/" + o.GetName()
			w.mu.Lock()
			dead, was := ok && w.dead[ver], w.frozen[op][key]
			w.mu.Unlock()
			if dead {
				if got := c19content(o.UnstructuredContent()); got != was {
					w.k.Fail("version %d of operator %s had been replaced or removed (when %s was %q) but has written %q since", ver, op, key, was, got)
				}
				w.k.Count("frozen_objects", 1)
				w.k.Eval(1)
			}
		}
	}
}

// settle waits until the views are as the current specifications tell.
func (w *c19world) settled(what string) {
	deadline := time.Now().Add(60 * time.Second)
	for {
		d := w.differs()
		if d == "" {
			return
		}
		if time.Now().After(deadline) {
			w.k.Fail("%s: %s", what, d)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (w *c19world) differs() string {
	w.mu.Lock()
	cur := maps.Clone(w.cur)
	in := maps.Clone(w.inputs)
	w.mu.Unlock()
	for op, s := range cur {
		if !w.started {
			for _, g := range w.kindsOf(op) {
				for _, o := range storeList(w.k, w.shared, g) {
					if v, _ := c19num(o.UnstructuredContent()["ver"]); v == s.ver {
						w.k.Fail("operator %s runs before the start: %s", op, js(o))
					}
				}
			}
			continue
		}
		for kd := range s.targets {
			got := map[string]string{}
			for _, o := range storeList(w.k, w.shared, opGVK(op, kd)) {
				ver, ok := c19num(o.UnstructuredContent()["ver"])
				if ok && w.byVer[ver] == nil {
					w.k.Fail("%s holds an object of an unknown version: %s", opGVK(op, kd), js(o))
				}
				got[o.GetNamespace()+"/"+o.GetName()] = c19content(o.UnstructuredContent())
			}
			in := in
			if f := s.from[kd]; f.Kind != "" { // may hold leftovers of former versions
				in = map[string]int{}
				for _, o := range storeList(w.k, w.shared, f) {
					in[o.GetNamespace()+"/"+o.GetName()], _ = c19num(o.UnstructuredContent()["n"])
				}
			}
			for key, n := range in {
				if want := fmt.Sprintf("ver=%d n=%d", s.ver, n); got[key] != want {
					return fmt.Sprintf("operator %s (version %d, %s): %s %s must be %q, is %q", op, s.ver, s.shape, kd, key, want, got[key])
				}
			}
			for key, c := range got {
				if _, ok := in[key]; !ok && strings.HasPrefix(c, fmt.Sprintf("ver=%d ", s.ver)) {
					return fmt.Sprintf("operator %s (version %d, %s): %s %s must not exist, is %q", op, s.ver, s.shape, kd, key, c)
				}
			}
		}
	}
	return ""
}

// advertised checks what the API server advertises and serves.
func c19advertised(k *K, s *restServer, groups []string, must, may map[string]map[string]bool) {
	list := s.do("GET", "/apis", "", "", nil, 20*time.Second)
	k.Check(list.Code == 200, "GET /apis: %v", list)
	adv := map[string]int{}
	for _, g := range list.Obj["groups"].([]any) {
		adv[g.(map[string]any)["name"].(string)]++
	}
	agg := c19aggregated(k, s)
	for _, op := range groups {
		grp := opGVK(op, "X").Group
		want, opt := must[op], may[op]
		n := adv[grp]
		delete(adv, grp)
		ok := n == 1
		if len(want) == 0 {
			ok = n == 0 || n == 1 && len(opt) > 0
		}
		k.Check(ok, "API group %s (kinds %v, optional %v) is advertised %d times", grp, sortedKeys(want), sortedKeys(opt), n)
		rg := s.do("GET", "/apis/"+grp, "", "", nil, 20*time.Second)
		k.Check((rg.Code == 200) == (n == 1), "API group %s is advertised %d times: %v", grp, n, rg)
		if rg.Code == 200 {
			k.Check(len(rg.Obj["versions"].([]any)) == 1, "API group %s has versions %v", grp, rg.Obj["versions"])
		}
		rv := s.do("GET", "/apis/"+grp+"/v1alpha1", "", "", nil, 20*time.Second)
		k.Check((rv.Code == 200) == (n == 1), "API group %s is advertised %d times: version: %v", grp, n, rv)
		got := map[string]bool{}
		if rv.Code == 200 {
			for _, x := range rv.Obj["resources"].([]any) {
				res := x.(map[string]any)
				kd, _ := res["kind"].(string)
				k.Check(!got[kd], "%s %s is advertised twice", grp, kd)
				got[kd] = true
				k.Check(res["name"] == strings.ToLower(kd) && res["namespaced"] == true, "%s %s is advertised as %v", grp, kd, res)
				vs, _ := res["verbs"].([]any)
				k.Check(len(vs) == 8, "%s %s is advertised with the verbs %v", grp, kd, vs)
			}
		}
		k.Check(maps.Equal(got, agg[grp]) || len(got)+len(agg[grp]) == 0, "API group %s: version document %v, aggregated discovery %v", grp, sortedKeys(got), sortedKeys(agg[grp]))
		delete(agg, grp)
		for kd := range want {
			k.Check(got[kd], "the operator %s has the kind %s, advertised: %v", op, kd, sortedKeys(got))
		}
		for kd := range got {
			k.Check(want[kd] || opt[kd], "the kind %s of operator %s is advertised, its kinds: %v", kd, op, sortedKeys(want))
		}
		for _, kd := range c19kinds {
			rep := s.do("GET", restPath(opGVK(op, kd), "", ""), "", "", nil, 20*time.Second)
			k.Check(rep.Code == 200 || rep.Code == 404 || rep.Code == 400, "LIST %s: %v", opGVK(op, kd), rep)
			k.Check((rep.Code == 200) == got[kd], "%s (advertised: %v): %v", opGVK(op, kd), got[kd], rep)
		}
		k.Eval(1)
	}
	k.Check(len(adv) == 0, "unknown API groups are advertised: %v", adv)
	k.Check(len(agg) == 0, "unknown API groups are advertised: %v", agg)
	k.Count("discovery_checks", len(groups))
}

func c19aggregated(k *K, s *restServer) map[string]map[string]bool {
	req, _ := http.NewRequest("GET", s.base+"/apis", nil)
	req.Header.Set("Accept", "application/json;g=apidiscovery.k8s.io;v=v2;as=APIGroupDiscoveryList")
	resp, err := s.hc.Do(req)
	k.Check(err == nil, "aggregated discovery: %v", err)
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	var doc struct {
		Kind  string
		Items []struct {
			Metadata struct{ Name string }
			Versions []struct {
				Version   string
				Resources []struct {
					Resource     string
					ResponseKind struct{ Kind string }
					Verbs        []string
				}
			}
		}
	}
	k.Check(json.Unmarshal(b, &doc) == nil && doc.Kind == "APIGroupDiscoveryList", "aggregated discovery: %s", b)
	out := map[string]map[string]bool{}
	for _, g := range doc.Items {
		k.Check(out[g.Metadata.Name] == nil, "group %s is advertised twice: %s", g.Metadata.Name, b)
		out[g.Metadata.Name] = map[string]bool{}
		for _, v := range g.Versions {
			for _, r := range v.Resources {
				k.Check(!out[g.Metadata.Name][r.ResponseKind.Kind], "%s is advertised twice: %s", r.ResponseKind.Kind, b)
				k.Check(r.Resource == strings.ToLower(r.ResponseKind.Kind) && len(r.Verbs) == 8, "%s is advertised as %v", r.ResponseKind.Kind, r)
				out[g.Metadata.Name][r.ResponseKind.Kind] = true
			}
		}
	}
	return out
}

// c19registry: the API server advertises and serves what is registered, whatever the history.
func c19registry(k *K) {
	s, err := newREST("http", logr.Discard())
	k.Check(err == nil, "the API server does not start: %v", err)
	defer s.stop()
	r := k.R
	ops := []string{"a", "b", "a.b"}
	reg := map[string]map[string]bool{}
	some := func(op string) ([]schema.GroupVersionKind, map[string]bool) {
		set := map[string]bool{}
		var gs []schema.GroupVersionKind
		for i := r.Intn(5); i > 0; i-- {
			kd := pick(r, c19kinds...)
			gs = append(gs, opGVK(op, kd))
			set[kd] = true
		}
		return gs, set
	}
	for step := 0; step < 25; step++ {
		op := pick(r, ops...)
		what := ""
		k.Protect("registration", func() {
			switch r.Intn(6) {
			case 0, 1:
				gs, set := some(op)
				what = fmt.Sprintf("RegisterAPIGroup %s %v", op, sortedKeys(set))
				err = s.srv.RegisterAPIGroup(opGVK(op, "X").Group, gs)
				reg[op] = set
			case 2, 3: // several groups at once
				op2 := pick(r, ops...)
				gs, set := some(op)
				if op2 != op {
					gs2, set2 := some(op2)
					gs = append(gs, gs2...)
					if len(gs2) > 0 {
						reg[op2] = set2
					}
					what = fmt.Sprintf(" %s %v", op2, sortedKeys(set2))
				}
				if len(set) > 0 {
					reg[op] = set
				}
				r.Shuffle(len(gs), func(i, j int) { gs[i], gs[j] = gs[j], gs[i] })
				if r.Intn(4) == 0 { // native kinds are ignored
					gs = append(gs, schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "Deployment"})
				}
				what = fmt.Sprintf("RegisterGVKs %s %v%s", op, sortedKeys(set), what)
				err = s.srv.RegisterGVKs(gs)
			case 4:
				gs, set := some(op)
				what = fmt.Sprintf("UnregisterGVKs %s %v", op, sortedKeys(set))
				s.srv.UnregisterGVKs(gs)
				reg[op] = maps.Clone(reg[op])
				for kd := range set {
					delete(reg[op], kd)
				}
			default:
				what = "UnregisterAPIGroup " + op
				s.srv.UnregisterAPIGroup(opGVK(op, "X").Group)
				delete(reg, op)
			}
		})
		k.Log("%s", what)
		k.Check(err == nil, "%s: %v", what, err)
		c19advertised(k, s, ops, reg, nil)
		k.Nontrivial("registry %s", what)
	}
}

func c19run(k *K, e *natEnv, crd bool) {
	r := k.R
	log := logr.Discard()
	if r.Intn(3) == 0 {
		log = jitterLog(r.Int63(), uint64(20+r.Intn(200)))
	}
	w := &c19world{world: newWorldOn(k, log, e, rest.CopyConfig(e.cfg), 0), cur: map[string]*c19spec{}, frozen: map[string]map[string]string{},
		byVer: map[int]*c19spec{}, dead: map[int]bool{}, inputs: map[string]int{}, groups: map[string]map[string]bool{}}
	defer w.close()
	scheme := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(scheme)
	_ = opv1a1.AddToScheme(scheme)
	skip := true
	var err error
	w.c, err = controllers.NewOpController(w.cfg, w.api.Cache, ctrl.Options{Scheme: scheme, HealthProbeBindAddress: "0",
		Metrics: metricsserver.Options{BindAddress: "0"}, Controller: config.Controller{SkipNameValidation: &skip}, Logger: log})
	k.Check(err == nil, "operator controller: %v", err)
	w.names = []string{"a", "b", "c.d", fmt.Sprintf("op-%d", k.Index)}
	if r.Intn(4) > 0 {
		w.srv, err = newRESTOn(w.api, "http", log)
		k.Check(err == nil, "API server: %v", err)
		defer func() { w.srv.stop() }()
		w.c.SetAPIServer(w.srv.srv)
	}
	if crd { // leftovers of a failed case
		w.clearCRDs()
		defer w.clearCRDs()
	}
	cl := w.shared.GetClient()
	ctx := context.Background()
	put := func(r *rand.Rand, n int) {
		key := fmt.Sprintf("i%d", r.Intn(4))
		ns := pick(r, "n1", "n2")
		if _, ok := w.inputs[ns+"/"+key]; ok && r.Intn(6) == 0 {
			if err := cl.Delete(ctx, vobjKey(c19in, ns+"/"+key)); err != nil {
				k.Report("delete input: %v", err)
			}
			w.mu.Lock()
			delete(w.inputs, ns+"/"+key)
			w.mu.Unlock()
			return
		}
		o := vobjKey(c19in, ns+"/"+key)
		o.Object["n"] = int64(n)
		if err := cl.Create(ctx, o); err != nil { // or replace
			k.Report("write input: %v", err)
		}
		w.mu.Lock()
		w.inputs[ns+"/"+key] = n
		w.mu.Unlock()
	}
	for i := 0; i < 6; i++ {
		put(r, i)
	}

	// the operator that is never touched
	keeper := &c19spec{ver: int(c19ver.Add(1)), op: "keeper", targets: map[string]bool{"T0": true}, shape: "keeper", spec: &opv1a1.OperatorSpec{}}
	b, _ := json.Marshal(m{"controllers": []any{m{"name": "keep", "sources": []any{m{"kind": c19in.Kind, "apiGroup": c19in.Group, "version": c19in.Version}}, "target": m{"kind": "T0"},
		"pipeline": []any{m{"@project": m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "ver": keeper.ver, "n": "$.n"}}}}}})
	k.Check(json.Unmarshal(b, keeper.spec) == nil, "keeper spec")
	w.byVer[keeper.ver] = keeper
	_, err = w.c.AddOperatorFromSpec("keeper", keeper.spec)
	k.Check(err == nil, "keeper: %v", err)
	w.cur["keeper"] = keeper
	names := append([]string{"keeper"}, w.names...)

	startCtx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	start := func() {
		go func() { done <- w.c.Start(startCtx) }()
		w.started = true
	}
	when := r.Intn(3) // when the controller is started
	if when == 0 {
		start()
	}

	for round := 0; round < k.N(3, 5); round++ {
		if round == 1 && when == 1 || round == 2 && when == 2 {
			start()
		}
		stop := make(chan struct{})
		var bg, wg sync.WaitGroup
		guard := func(wg *sync.WaitGroup, fn func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(abortCase); !ok {
							k.Report("panic: %v", x)
						}
					}
				}()
				fn()
			}()
		}
		// the inputs change all the time
		wr := rand.New(rand.NewSource(r.Int63()))
		guard(&bg, func() {
			for n := 1000*(round+1) + 1; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				put(wr, n)
				time.Sleep(time.Duration(wr.Intn(1500)) * time.Microsecond)
			}
		})
		// readers
		rr := rand.New(rand.NewSource(r.Int63()))
		guard(&bg, func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				if op := w.c.GetOperator(pick(rr, append(names, "none")...)); op != nil {
					op.GetStatus(1)
					op.ListControllers()
					op.GetGVKs()
				}
				time.Sleep(200 * time.Microsecond)
			}
		})
		swap := w.srv != nil && r.Intn(3) == 0
		if w.srv != nil && !swap {
			srv := w.srv
			seen := 0
			guard(&bg, func() {
				for {
					select {
					case <-stop:
						k.Count("keeper_requests", seen)
						k.Eval(seen)
						return
					default:
					}
					rep := srv.do("GET", restPath(opGVK("keeper", "T0"), "", ""), "", "", nil, 20*time.Second)
					if rep.Code != 200 {
						k.Report("the view of an operator that nobody has touched: %v", rep)
						return
					}
					seen++
					time.Sleep(300 * time.Microsecond)
				}
			})
		}
		// changes: every operator is changed by one goroutine
		nop := 2 + r.Intn(5)
		for _, name := range w.names {
			mr := rand.New(rand.NewSource(r.Int63()))
			if crd {
				guard(&wg, func() { w.changeCRD(mr, name, nop/2) })
			} else {
				guard(&wg, func() { w.change(mr, name, nop) })
			}
		}
		// everybody changes this one
		if !crd && r.Intn(2) == 0 {
			for i := 0; i < 3; i++ {
				mr := rand.New(rand.NewSource(r.Int63()))
				guard(&wg, func() {
					for j := 0; j < nop; j++ {
						s := c19mkspec(k, mr, "shared")
						w.mu.Lock()
						w.byVer[s.ver] = s
						w.mu.Unlock()
						if mr.Intn(4) == 0 {
							w.c.DeleteOperator("shared")
						} else if _, err := w.c.UpsertOperator("shared", s.spec); err != nil {
							k.Report("UpsertOperator: %v", err)
						}
					}
				})
			}
			if !slices.Contains(names, "shared") {
				names = append(names, "shared")
			}
		}
		if swap { // the API server is replaced
			srv, err := newRESTOn(w.api, "http", log)
			k.Check(err == nil, "API server: %v", err)
			w.swap.Lock()
			w.old, w.srv = w.srv, srv
			w.c.SetAPIServer(srv.srv)
			w.swap.Unlock()
		}
		k.Within("changing operators", 240*time.Second, wg.Wait)
		if slices.Contains(names, "shared") {
			s := c19mkspec(k, r, "shared")
			w.mu.Lock()
			for v, o := range w.byVer {
				if o.op == "shared" {
					w.dead[v] = true
				}
			}
			w.byVer[s.ver] = s
			w.mu.Unlock()
			_, err := w.c.UpsertOperator("shared", s.spec)
			k.Check(err == nil, "UpsertOperator: %v", err)
			w.mu.Lock()
			w.cur["shared"] = s
			w.mu.Unlock()
			w.freeze("shared")
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
		close(stop)
		bg.Wait()
		if k.failed() > 0 {
			return
		}

		// quiescence
		if crd && w.started {
			w.settledCRDs()
			w.settled("at a quiescent point")
			for op := range w.groups {
				w.markDead(op)
				w.freeze(op)
			}
			for i := 0; i < 5; i++ {
				put(r, 1000*(round+1)+900+i)
				w.settled("after another input")
			}
		}
		if !crd || w.started {
			w.settled("at a quiescent point")
		}
		for _, op := range names {
			w.checkFrozen(op)
		}
		w.k.Eval(len(w.cur))
		w.k.Count("operators_compared", len(w.cur))
		if crd && !w.started {
			continue // the custom resources have not been seen yet
		}
		must, may := map[string]map[string]bool{}, map[string]map[string]bool{}
		for op, s := range w.cur {
			must[op], may[op] = maps.Clone(s.targets), s.may
			maps.Copy(must[op], s.idle)
			got := w.c.GetOperator(op)
			k.Check(got != nil && got.GetName() == op, "operator %s does not exist", op)
			k.Check(len(got.ListControllers()) == len(s.spec.Controllers), "operator %s has %d controllers instead of %d", op, len(got.ListControllers()), len(s.spec.Controllers))
		}
		for _, op := range names {
			if w.cur[op] == nil {
				k.Check(w.c.GetOperator(op) == nil, "the removed operator %s exists", op)
			}
		}
		if w.srv != nil {
			c19advertised(k, w.srv, names, must, may)
		}
		if w.old != nil {
			c19advertised(k, w.old, names, nil, nil)
			w.old.stop()
			w.old = nil
		}
	}

	// the end: everything stops
	if w.started {
		cancel()
		k.Within("stopping the operator controller", 60*time.Second, func() {
			if err := <-done; err != nil && !errors.Is(err, context.Canceled) {
				k.Report("the operator controller fails: %v", err)
			}
		})
		deadline := time.Now().Add(30 * time.Second)
		for n := 100000; ; n++ {
			before := w.allObjects(names)
			put(r, n)
			time.Sleep(50 * time.Millisecond)
			if maps.Equal(before, w.allObjects(names)) {
				break
			}
			k.Check(time.Now().Before(deadline), "the operators still run 30 s after the operator controller has stopped")
		}
		k.Eval(1)
	}
}

// c19backlog removes, replaces or stops an operator that has a lot of work left: it must drop that.
func c19backlog(k *K, e *natEnv) {
	r := k.R
	log := logr.Discard()
	w := newWorldOn(k, log, e, rest.CopyConfig(e.cfg), 0)
	defer w.close()
	scheme := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(scheme)
	_ = opv1a1.AddToScheme(scheme)
	skip := true
	c, err := controllers.NewOpController(w.cfg, w.api.Cache, ctrl.Options{Scheme: scheme, HealthProbeBindAddress: "0",
		Metrics: metricsserver.Options{BindAddress: "0"}, Controller: config.Controller{SkipNameValidation: &skip}, Logger: log})
	k.Check(err == nil, "operator controller: %v", err)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	go func() { done <- c.Start(ctx) }()

	n := 1500
	cl := w.shared.GetClient()
	for i := 0; i < n; i++ {
		o := vobjKey(c19in, fmt.Sprintf("n%d/i%d", i%3, i))
		o.Object["n"] = int64(i)
		k.Check(cl.Create(context.Background(), o) == nil, "create failed")
	}
	spec := func(ver int, slow bool) *opv1a1.OperatorSpec {
		p := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "ver": ver}
		if slow { // takes a while
			var l []any
			for i := 0; i < 3000; i++ {
				l = append(l, i)
			}
			p["n"] = m{"@sum": m{"@map": []any{m{"@sum": []any{"$$", "$.n", 1}}, l}}}
		}
		src := m{"kind": c19in.Kind, "apiGroup": c19in.Group, "version": c19in.Version}
		b, _ := json.Marshal(m{"controllers": []any{m{"name": "c", "sources": []any{src}, "target": m{"kind": "T0"}, "pipeline": []any{m{"@project": p}}}}})
		s := &opv1a1.OperatorSpec{}
		k.Check(json.Unmarshal(b, s) == nil, "spec")
		return s
	}
	written := func() int {
		x := 0
		for _, o := range storeList(k, w.shared, opGVK("busy", "T0")) {
			if v, _ := c19num(o.UnstructuredContent()["ver"]); v == 1 {
				x++
			}
		}
		return x
	}
	_, err = c.AddOperatorFromSpec("busy", spec(1, true))
	k.Check(err == nil, "AddOperatorFromSpec: %v", err)
	min := 1 + r.Intn(40)
	k.Within("processing", 60*time.Second, func() {
		for written() < min {
			time.Sleep(time.Millisecond)
		}
	})
	before, peak := written(), 0
	what := pick(r, "delete", "replace", "stop")
	start := time.Now()
	switch what {
	case "delete":
		k.Within("deletion", 100*time.Second, func() { c.DeleteOperator("busy") })
	case "replace":
		k.Within("replacement", 100*time.Second, func() {
			stop, stopped := make(chan struct{}), make(chan struct{})
			go func() { // the new version takes over what the old one has written
				defer close(stopped)
				for {
					select {
					case <-stop:
						return
					case <-time.After(2 * time.Millisecond):
						peak = max(peak, written())
					}
				}
			}()
			defer func() { close(stop); <-stopped }()
			_, err := c.UpsertOperator("busy", spec(2, false))
			k.Check(err == nil, "UpsertOperator: %v", err)
		})
	case "stop":
		cancel()
		k.Within("stop", 100*time.Second, func() { <-done })
	}
	took := time.Since(start)
	after := written()
	if what == "replace" {
		after = peak
		k.Within("replacement", 60*time.Second, func() {
			for len(storeList(k, w.shared, opGVK("busy", "T0"))) < n || written() > 0 {
				time.Sleep(5 * time.Millisecond)
			}
		})
	}
	k.Log("%s with %d of %d inputs processed took %v, then %d", what, before, n, took, after)
	k.Eval(1)
	k.Nontrivial("backlog %s %d", what, min)
	k.Max("backlog dropped", n-after)
	if before > n/3 { // too fast to tell
		k.Count("backlogs too short", 1)
		return
	}
	k.Check(after < n*2/3, "%s of an operator that has processed %d of %d inputs: it has processed %d by the time it stopped", what, before, n, after)
	time.Sleep(20 * time.Millisecond)
	if what != "replace" {
		now := written()
		k.Check(what == "stop" || now == after, "the deleted operator has processed %d inputs and then %d", after, now)
		k.Check(now < n*2/3, "%s of an operator that has processed %d of %d inputs: it goes on and has processed %d", what, before, n, now)
	}
}

func (w *c19world) allObjects(ops []string) map[string]string {
	out := map[string]string{}
	for _, op := range ops {
		for _, g := range w.kindsOf(op) {
			for _, o := range storeList(w.k, w.shared, g) {
				out[g.String()+"/"+o.GetNamespace()+"/"+o.GetName()] = c19content(o.UnstructuredContent())
			}
		}
	}
	return out
}

// markDead marks all versions of an operator but the current one.
func (w *c19world) markDead(op string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for v, s := range w.byVer {
		if s.op == op && w.cur[op] != s {
			w.dead[v] = true
		}
	}
}

// change makes random changes to an operator.
func (w *c19world) change(r *rand.Rand, name string, n int) {
	k := w.k
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
		s := c19mkspec(k, r, name)
		w.mu.Lock()
		w.byVer[s.ver] = s
		cur := w.cur[name]
		w.mu.Unlock()
		what := ""
		switch x := r.Intn(12); {
		case x < 4:
			what = "upsert"
			op, err := w.c.UpsertOperator(name, s.spec)
			k.Check(err == nil && op != nil, "UpsertOperator %s: %v", name, err)
		case x < 7:
			what = "add"
			op, err := w.c.AddOperatorFromSpec(name, s.spec)
			k.Check(err == nil && op != nil, "AddOperatorFromSpec %s: %v", name, err)
		case x < 9:
			what = "add-object"
			errs := make(chan error, 64)
			w.swap.RLock()
			opts := operator.Options{Cache: w.api.Cache, ErrorChannel: errs, Logger: w.log}
			op, err := operator.New(name, w.cfg, opts)
			k.Check(err == nil, "operator: %v", err)
			op.AddSpec(s.spec)
			if srv := w.srv; srv != nil {
				op.SetAPIServer(srv.srv)
				if cur == nil {
					k.Check(op.RegisterGVKs() == nil, "RegisterGVKs fails")
				}
			}
			w.c.AddOperator(op)
			if r.Intn(2) == 0 {
				w.c.AddOperator(op)
			}
			w.swap.RUnlock()
		case x < 11:
			what, s = "delete", nil
			w.c.DeleteOperator(name)
			if r.Intn(2) == 0 {
				w.c.DeleteOperator(name)
			}
		default:
			what = "delete-unknown"
			w.c.DeleteOperator(pick(r, "", "none", "UPPER", name+"x"))
			s = cur
		}
		state := "absent"
		if cur != nil {
			state = cur.shape
		}
		k.Log("%s %s", what, name)
		w.mu.Lock()
		if cur != nil && cur != s {
			w.dead[cur.ver] = true
		}
		if s != nil {
			w.cur[name] = s
			state += ">" + s.shape
		} else {
			delete(w.cur, name)
		}
		w.mu.Unlock()
		k.Count("changes", 1)
		k.Nontrivial("%s %s %v", what, state, w.started)
		if what != "delete-unknown" {
			w.freeze(name)
		}
		if r.Intn(2) == 0 {
			w.checkFrozen(name)
		}
	}
}

// changeCRD makes random changes to the custom resource of an operator.
func (w *c19world) changeCRD(r *rand.Rand, name string, n int) {
	k := w.k
	ctx := context.Background()
	for i := 0; i <= n; i++ {
		time.Sleep(time.Duration(r.Intn(30000)) * time.Microsecond)
		s := c19mkspec(k, r, name)
		w.mu.Lock()
		w.byVer[s.ver] = s
		w.groups[name] = nil
		w.mu.Unlock()
		cur := &opv1a1.Operator{}
		err := w.nat.cl.Get(ctx, client.ObjectKey{Name: name}, cur)
		what := ""
		switch {
		case apierrors.IsNotFound(err):
			what = "create"
			err = w.nat.cl.Create(ctx, &opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: name}, Spec: *s.spec})
		case err != nil:
		case r.Intn(3) == 0:
			what, s = "delete", nil
			err = w.nat.cl.Delete(ctx, cur)
		default:
			what = "update"
			for try := 0; try < 50; try++ {
				cur.Spec = *s.spec
				if err = w.nat.cl.Update(ctx, cur); !apierrors.IsConflict(err) {
					break
				}
				if err = w.nat.cl.Get(ctx, client.ObjectKey{Name: name}, cur); err != nil {
					break
				}
			}
		}
		if apierrors.IsInvalid(err) { // refused by the CRD's schema
			k.Count("refused_by_schema", 1)
			continue
		}
		k.Check(err == nil, "%s of the custom resource: %v", what, err)
		k.Log("CRD %s %s", what, name)
		w.mu.Lock()
		if s != nil {
			w.cur[name] = s
		} else {
			delete(w.cur, name)
		}
		w.mu.Unlock()
		k.Count("CRD_changes", 1)
		sh := ""
		if s != nil {
			sh = s.shape
		}
		k.Nontrivial("CRD %s %s %v", what, sh, w.started)
	}
}

func (w *c19world) clearCRDs() {
	ctx := context.Background()
	l := &opv1a1.OperatorList{}
	if w.nat.cl.List(ctx, l) != nil {
		return
	}
	for i := range l.Items {
		w.nat.cl.Delete(ctx, &l.Items[i]) //nolint:errcheck
	}
}

// settledCRDs waits until the statuses of the custom resources are as their specifications tell.
func (w *c19world) settledCRDs() {
	ctx := context.Background()
	deadline := time.Now().Add(60 * time.Second)
	for {
		d := ""
		l := &opv1a1.OperatorList{}
		w.k.Check(w.nat.cl.List(ctx, l) == nil, "list of the custom resources")
		for _, o := range l.Items {
			s := w.cur[o.Name]
			if s == nil {
				d = "unknown " + o.Name
				continue
			}
			if op := w.c.GetOperator(o.Name); op == nil {
				d = fmt.Sprintf("operator %s does not exist", o.Name)
				continue
			}
			if len(o.Status.Controllers) != len(s.spec.Controllers) {
				d = fmt.Sprintf("operator %s (%s) has the status of %d controllers", o.Name, s.shape, len(o.Status.Controllers))
				continue
			}
			for i, st := range o.Status.Controllers {
				want := metav1.ConditionTrue
				if !s.valid[s.spec.Controllers[i].Name] {
					want = metav1.ConditionFalse
				}
				if st.Name != s.spec.Controllers[i].Name || len(st.Conditions) != 1 || st.Conditions[0].Type != string(opv1a1.ControllerConditionReady) ||
					st.Conditions[0].Status != want || st.Conditions[0].ObservedGeneration != o.Generation || (len(st.LastErrors) > 0) != (want == metav1.ConditionFalse) {
					d = fmt.Sprintf("operator %s (generation %d, %s): the status of controller %s (must be ready: %s) is %s", o.Name, o.Generation, s.shape, s.spec.Controllers[i].Name, want, js(st))
				}
			}
		}
		for name := range w.groups {
			if w.cur[name] == nil && w.c.GetOperator(name) != nil {
				d = fmt.Sprintf("operator %s exists but its custom resource does not", name)
			}
		}
		if d == "" {
			w.k.Count("statuses_compared", len(l.Items))
			w.k.Eval(len(l.Items))
			return
		}
		if time.Now().After(deadline) {
			w.k.Fail("the status of the custom resources: %s", d)
		}
		time.Sleep(5 * time.Millisecond)
	}
}
