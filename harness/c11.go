package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	crcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
}

func checkC11(c *Ctx) {
	c.Rule("order: one writer per key gives the true sequence of versions; handlers and watchers (with selectors) are registered and removed before and during the writes; what each received per key must be exactly the true sequence from some point inside its registration window on, projected through its selection. multi: several writers per key; all handlers must have seen the same well-formed lifecycle and replay to the store content. burst: thousands of changes against a consumer that starts reading late. reenter: handlers that read and write the store themselves")
	c.Assume("an object entering a watcher's selection may be announced as added or modified (pinned by an existing test); after a handler was removed at most one event that was already being delivered may still arrive; buffered events of a stopped watcher are ignored")
	c.Section("order", c.N(1200, 60000), 4, func(k *K) { c11order(k, false) })
	c.Section("multi", c.N(600, 20000), 4, func(k *K) { c11multi(k, false) })
	c.Section("burst", c.N(24, 200), 4, c11burst)
	c.Section("reenter", c.N(200, 6000), 4, c11reenter)
	c.Section("removal", c.N(300, 6000), 4, c11removal)
	c.Section("sync", c.N(40, 800), 4, c11sync)
}

func checkC12(c *Ctx) {
	c.Rule("the C11 and C10 monitors over several caches attached to one shared store: writes go through randomly chosen caches and clients, handlers and watchers live on different caches, caches are started, stopped and their informers removed while the writes go on; handlers of untouched caches must see the exact sequence, writes must be readable through every cache at once")
	c.Assume("handlers of a stopped cache may keep receiving a prefix of the events")
	c.Section("order", c.N(1200, 60000), 4, func(k *K) { c11order(k, true) })
	c.Section("multi", c.N(600, 20000), 4, func(k *K) { c11multi(k, true) })
	c.Section("setup", c.N(1500, 60000), 8, c12setup)
	c.Section("lifecycle", c.N(400, 10000), 4, c12lifecycle)
}

// tev is an observed or expected event.
type tev struct {
	typ      string // add, upd, del
	old, obj string
}

func (e tev) String() string { return fmt.Sprintf("%s %s (was %s)", e.typ, e.obj, e.old) }

// truth is the sequence of versions of one key: states[0] is "" (absent), and so is every state
// after a deletion.
type truth struct {
	mu        sync.Mutex
	states    []string
	started   int // writes started
	completed int // writes completed (as index into states)
}

func (t *truth) window() (int, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.completed, t.started
}

// obsv is an informer handler or watcher under observation.
type obsv struct {
	name   string
	cache  int
	sel    *lsel
	ns     string
	field  *fsel
	watch  watch.Interface
	inf    crcache.Informer
	reg    toolscache.ResourceEventHandlerRegistration
	lo, hi map[string]int // registration window per key
	gone   atomic.Bool    // removed or stopped
	loose  bool           // its cache was stopped: only a prefix is required

	mu     sync.Mutex
	evs    map[string][]tev
	n      int
	errs   []string
	done   chan struct{}
	doneN  int
	hook   func(typ string, o object.Object)
	nested int
}

func (o *obsv) rec(typ string, old, obj any) {
	x, ok := obj.(object.Object)
	o.mu.Lock()
	if !ok || x == nil {
		o.errs = append(o.errs, fmt.Sprintf("%s event with %T", typ, obj))
		o.mu.Unlock()
		return
	}
	e := tev{typ: typ, obj: stripUID(x.UnstructuredContent())}
	if y, ok := old.(object.Object); ok && y != nil {
		e.old = stripUID(y.UnstructuredContent())
	}
	k := x.GetNamespace() + "/" + x.GetName()
	o.evs[k] = append(o.evs[k], e)
	o.n++
	o.mu.Unlock()
	if o.hook != nil {
		o.hook(typ, x)
	}
}
func (o *obsv) OnAdd(x any, _ bool) { o.rec("add", nil, x) }
func (o *obsv) OnUpdate(a, b any)   { o.rec("upd", a, b) }
func (o *obsv) OnDelete(x any)      { o.rec("del", nil, x) }

func (o *obsv) count() int { o.mu.Lock(); defer o.mu.Unlock(); return o.n }

// visible tells whether a version is in the selection of the observer.
func (o *obsv) visible(s string) bool {
	if s == "" {
		return false
	}
	x := parseJSON(s)
	md, _ := x["metadata"].(map[string]any)
	lab, _ := md["labels"].(map[string]any)
	if o.ns != "" && md["namespace"] != o.ns || !o.field.match(x) {
		return false
	}
	return o.sel.match(lab)
}

// expect is the event sequence an observer registered at version i must see.
func (o *obsv) expect(states []string, i int) []tev {
	var out []tev
	if o.visible(states[i]) {
		out = append(out, tev{"add", "", states[i]})
	}
	for j := i + 1; j < len(states); j++ {
		a, b := states[j-1], states[j]
		va, vb := o.visible(a), o.visible(b)
		switch {
		case a == "" && vb:
			out = append(out, tev{"add", "", b})
		case va && vb:
			out = append(out, tev{"upd", a, b})
		case !va && vb:
			out = append(out, tev{"enter", a, b})
		case va && b == "":
			out = append(out, tev{"del", "", a})
		case va:
			out = append(out, tev{"leave", a, b})
		}
	}
	return out
}

func (o *obsv) matchEv(got, want tev) bool {
	switch want.typ {
	case "enter":
		return (got.typ == "add" || got.typ == "upd") && got.obj == want.obj
	case "leave":
		return got.typ == "del" && (got.obj == want.old || got.obj == want.obj)
	case "upd":
		return got.typ == "upd" && got.obj == want.obj && (o.watch != nil || got.old == want.old)
	}
	return got.typ == want.typ && got.obj == want.obj
}

// verify compares what was received for a key with the truth. An empty result means ok.
func (o *obsv) verify(key string, states []string, lo, hi int, prefix bool) string {
	o.mu.Lock()
	got := append([]tev{}, o.evs[key]...)
	o.mu.Unlock()
	if hi > len(states)-1 {
		hi = len(states) - 1
	}
	best := ""
	for i := lo; i <= hi; i++ {
		want := o.expect(states, i)
		j := 0
		for j < len(got) && j < len(want) && o.matchEv(got[j], want[j]) {
			j++
		}
		if j == len(got) && (j == len(want) || prefix) {
			return ""
		}
		m := fmt.Sprintf("registered at version %d: ", i)
		switch {
		case j == len(want):
			m += fmt.Sprintf("extra event %s after the %d expected ones", got[j], len(want))
		case j == len(got):
			m += fmt.Sprintf("event %d missing: %s", j, want[j])
		default:
			m += fmt.Sprintf("event %d is %s instead of %s", j, got[j], want[j])
		}
		if best == "" || i == lo {
			best = m
		}
	}
	return fmt.Sprintf("%s for %s (window %d..%d): %s; received %d events: %v", o.name, key, lo, hi, best, len(got), got)
}

// observe registers an observer on a cache.
func observe(k *K, p vpath, ci int, r *rand.Rand, name string, asWatch bool, lists func() map[string]int, hiF func() map[string]int) *obsv {
	ctx := context.Background()
	o := &obsv{name: name, cache: ci, evs: map[string][]tev{}, done: make(chan struct{})}
	if asWatch {
		switch r.Intn(6) {
		case 0, 1:
			o.sel = genSel2(r)
		case 5: // several filters at once
			o.sel, o.field = genSel2(r), genFsel(r)
			if r.Intn(2) == 0 {
				o.ns = "default"
			}
		case 2:
			o.ns = "default"
			if r.Intn(3) == 0 {
				o.field = genFsel(r)
			}
		case 3:
			o.field = genFsel(r)
		}
	}
	o.lo = lists()
	if asWatch {
		var opts []client.ListOption
		if o.ns != "" {
			opts = append(opts, client.InNamespace(o.ns))
		}
		if o.sel != nil {
			opts = append(opts, client.MatchingLabelsSelector{Selector: o.sel.labels()})
		}
		if o.field != nil {
			opts = append(opts, client.MatchingFieldsSelector{Selector: o.field.fields()})
		}
		var w watch.Interface
		var err error
		if ww, ok := p.cl.(client.WithWatch); ok && r.Intn(2) == 0 {
			w, err = ww.Watch(ctx, cache.NewViewObjectList(pOp, "Alpha"), opts...)
		} else {
			w, err = p.vc.Watch(ctx, cache.NewViewObjectList(pOp, "Alpha"), opts...)
		}
		if err != nil {
			k.Report("watch: %v", err)
			return nil
		}
		o.watch = w
		o.name += fmt.Sprintf("(watch on %s sel=%v ns=%q field=%v)", p.name, o.sel, o.ns, o.field)
		go func() {
			defer close(o.done)
			for e := range w.ResultChan() {
				if o.gone.Load() {
					continue
				}
				switch e.Type {
				case watch.Added:
					o.rec("add", nil, e.Object)
				case watch.Modified:
					o.rec("upd", nil, e.Object)
				case watch.Deleted:
					o.rec("del", nil, e.Object)
				default:
					o.rec(string(e.Type), nil, e.Object)
				}
			}
		}()
	} else {
		inf, err := p.vc.GetInformerForKind(ctx, viewGVK("Alpha"))
		if err == nil {
			o.inf = inf
			o.reg, err = inf.AddEventHandler(o)
		}
		if err != nil {
			k.Report("informer: %v", err)
			return nil
		}
		o.name += "(handler on " + p.name + ")"
	}
	o.hi = hiF()
	return o
}

// remove unregisters the observer.
func (o *obsv) remove(k *K) {
	o.gone.Store(true)
	if o.watch != nil {
		o.watch.Stop()
		if k.R.Intn(4) == 0 {
			o.watch.Stop() // stopping twice is fine
		}
	} else if err := o.inf.RemoveEventHandler(o.reg); err != nil {
		k.Report("removing a handler: %v", err)
	}
}

// changeStore makes a random change of one key; it returns the new version ("" when absent).
func changeStore(r *rand.Rand, p vpath, ns, name, cur, tag string) (sop, string) {
	o := sop{Op2: pOp, Kind: "Alpha", NS: ns, Name: name}
	s := smodel{}
	if cur == "" {
		o.Op = []string{"add", "create", "put"}[r.Intn(3)]
		o.Obj = storeContent(r, tag)
	} else {
		s[o.key()] = cur
		switch x := r.Intn(10); {
		case x < 2:
			o.Op = []string{"delete", "remove"}[r.Intn(2)]
		case x < 5:
			o.Op = "patch"
			o.Obj = m{"spec": m{"v": tag}}
			if r.Intn(2) == 0 {
				o.Obj["metadata"] = m{"labels": m{"app": []string{"x", "y"}[r.Intn(2)]}}
			}
		case x < 6:
			o.Op, o.Obj = "status", storeStatus(r, tag)
		case x < 7: // no change
			o.Op, o.Obj = "update", parseJSON(cur)
		default:
			o.Op = []string{"update", "put", "create"}[r.Intn(3)]
			o.Obj = storeContent(r, tag)
		}
	}
	s2, _ := s.apply(o)
	return o, s2[o.key()]
}

// quiet waits until an observer caught up.
func quiet(obs []*obsv, want func(o *obsv) bool) {
	deadline := time.Now().Add(15 * time.Second)
	for _, o := range obs {
		for !want(o) && time.Now().Before(deadline) {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func c11order(k *K, shared bool) {
	r := k.R
	log := jitterLog(r.Int63(), uint64(6+r.Intn(40)))
	ndel := 0
	if shared {
		ndel = 1 + r.Intn(3)
	}
	_, ps := newStore(log, ndel)
	writers, rounds := 1+r.Intn(3), 10+r.Intn(30)
	type kk struct{ ns, name string }
	keys := make([][]kk, writers)
	truths := map[string]*truth{}
	var all []kk
	for w := range keys {
		for i := 0; i < 1+r.Intn(2); i++ {
			x := kk{[]string{"default", "default", "other", ""}[r.Intn(4)], fmt.Sprintf("%c", 'a'+byte(len(all)))}
			keys[w] = append(keys[w], x)
			all = append(all, x)
			truths[x.ns+"/"+x.name] = &truth{states: []string{""}}
		}
	}
	lo := func() map[string]int {
		out := map[string]int{}
		for n, t := range truths {
			out[n], _ = t.window()
		}
		return out
	}
	hi := func() map[string]int {
		out := map[string]int{}
		for n, t := range truths {
			_, out[n] = t.window()
		}
		return out
	}
	var obs []*obsv
	var omu sync.Mutex
	reg := func(r *rand.Rand, name string) {
		ci := r.Intn(len(ps))
		o := observe(k, ps[ci], ci, r, name, r.Intn(2) == 0, lo, hi)
		if o != nil {
			omu.Lock()
			obs = append(obs, o)
			omu.Unlock()
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		reg(r, fmt.Sprintf("early%d", i))
	}
	var wg, rg sync.WaitGroup
	var progress atomic.Int64
	total := int64(writers * rounds)
	for w := range keys {
		wg.Add(1)
		wr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			cur := map[string]string{}
			for i := 0; i < rounds; i++ {
				x := keys[w][wr.Intn(len(keys[w]))]
				key := x.ns + "/" + x.name
				p := ps[wr.Intn(len(ps))]
				o, next := changeStore(wr, p, x.ns, x.name, cur[key], fmt.Sprintf("w%d-%d", w, i))
				t := truths[key]
				if next != cur[key] {
					t.mu.Lock()
					t.states = append(t.states, next)
					t.started = len(t.states) - 1
					t.mu.Unlock()
				}
				if res := o.do([]vpath{p}); res.Err != "" {
					k.Report("%s: %s", o, res.Err)
					return
				}
				if next != cur[key] {
					t.mu.Lock()
					t.completed = len(t.states) - 1
					t.mu.Unlock()
				}
				cur[key] = next
				progress.Add(1)
			}
		}()
	}
	for g := 0; g < 1+r.Intn(2); g++ {
		rg.Add(1)
		gr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer rg.Done()
			for i := 0; i < 1+gr.Intn(4); i++ {
				// register or remove at a random point of the writers' progress
				at := gr.Int63n(total)
				for progress.Load() < at && progress.Load() < total-2 && k.failed() == 0 {
					time.Sleep(5 * time.Microsecond)
				}
				if gr.Intn(4) > 0 {
					reg(gr, fmt.Sprintf("live%d.%d", g, i))
					continue
				}
				omu.Lock()
				var victim *obsv
				for _, o := range obs {
					if !o.gone.Load() {
						victim = o
						o.gone.Store(true)
						break
					}
				}
				omu.Unlock()
				if victim != nil {
					kk := &K{Ctx: k.Ctx, R: gr, Section: k.Section, Index: k.Index}
					victim.remove(kk)
				}
			}
		}()
	}
	wg.Wait()
	rg.Wait()
	reg(r, "late")
	check := func(o *obsv) string {
		for _, x := range all {
			key := x.ns + "/" + x.name
			if m := o.verify(key, truths[key].states, o.lo[key], o.hi[key], o.gone.Load()); m != "" {
				return m
			}
		}
		return ""
	}
	quiet(obs, func(o *obsv) bool { return o.gone.Load() || check(o) == "" })
	changes, removed := 0, 0
	for _, t := range truths {
		changes += len(t.states) - 1
	}
	for _, o := range obs {
		k.Check(len(o.errs) == 0, "%s: %v", o.name, o.errs)
		if m := check(o); m != "" {
			for _, x := range all {
				k.Log("versions of %s: %v", x, truths[x.ns+"/"+x.name].states)
			}
			k.Fail("wrong event sequence: %s", m)
		}
		if o.gone.Load() {
			removed++
		} else if o.reg != nil {
			k.Check(o.reg.HasSynced(), "%s has not synced", o.name)
		}
		k.Count("events observed", o.count())
	}
	// nothing extra arrives any more, and removed observers stay silent
	counts := make([]int, len(obs))
	for i, o := range obs {
		counts[i] = o.count()
	}
	last := all[0]
	cur := truths[last.ns+"/"+last.name].states
	o, next := changeStore(r, ps[0], last.ns, last.name, cur[len(cur)-1], "final")
	k.Check(o.do(ps[:1]).Err == "", "final write")
	if next != cur[len(cur)-1] {
		truths[last.ns+"/"+last.name].states = append(cur, next)
	}
	quiet(obs, func(o *obsv) bool { return o.gone.Load() || check(o) == "" })
	for i, o := range obs {
		if m := check(o); m != "" {
			k.Fail("wrong event sequence after a final write: %s", m)
		}
		if o.gone.Load() && o.watch == nil && o.count() != counts[i] {
			k.Fail("%s received an event after it was removed", o.name)
		}
		if o.gone.Load() && o.watch != nil {
			k.Within("closing the channel of a stopped watcher", 20*time.Second, func() { <-o.done })
		}
	}
	for _, o := range obs {
		if !o.gone.Load() {
			o.remove(k)
		}
		if o.watch != nil {
			k.Within("closing the channel of a stopped watcher", 20*time.Second, func() { <-o.done })
		}
	}
	k.Count("changes", changes)
	k.Count("observers", len(obs))
	k.Count("observers removed during writes", removed)
	wins := ""
	for _, o := range obs {
		for _, x := range all {
			key := x.ns + "/" + x.name
			wins += fmt.Sprintf("%d-%d,", o.lo[key], o.hi[key])
		}
	}
	k.Nontrivial("order %d %s", k.Index, wins)
}

func c11multi(k *K, shared bool) {
	r := k.R
	log := jitterLog(r.Int63(), uint64(6+r.Intn(30)))
	ndel := 0
	if shared {
		ndel = 1 + r.Intn(3)
	}
	_, ps := newStore(log, ndel)
	var obs []*obsv
	none := func() map[string]int { return nil }
	nObs := 2 + r.Intn(4)
	for i := 0; i < nObs; i++ {
		ci := r.Intn(len(ps))
		if shared {
			ci = i % len(ps)
		}
		o := observe(k, ps[ci], ci, r, fmt.Sprintf("o%d", i), false, none, none)
		obs = append(obs, o)
	}
	names := []string{"a", "b", "c"}[:1+r.Intn(3)]
	writers, rounds := 2+r.Intn(4), 5+r.Intn(25)
	var wg sync.WaitGroup
	var late []*obsv
	var lmu sync.Mutex
	for w := 0; w < writers; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for i := 0; i < rounds; i++ {
				o := sop{Path: wr.Intn(len(ps)), Op: []string{"add", "put", "create", "update", "delete", "patch", "patch", "remove", "status"}[wr.Intn(9)],
					Op2: pOp, Kind: "Alpha", NS: "default", Name: names[wr.Intn(len(names))]}
				tag := fmt.Sprintf("w%d-%d", w, i)
				switch o.Op {
				case "patch":
					o.Obj = m{"spec": m{fmt.Sprintf("f%d", w): tag}}
				case "status":
					o.Obj = m{"phase": tag}
				default:
					o.Obj = storeContent(wr, tag)
				}
				o.do(ps)
				if wr.Intn(rounds) == 0 {
					l := observe(k, ps[wr.Intn(len(ps))], 0, wr, "late", wr.Intn(2) == 0, none, none)
					if l != nil {
						if l.watch != nil {
							l.sel, l.ns, l.field = nil, "", nil // only the replay below matters
							l.watch.Stop()
							continue
						}
						lmu.Lock()
						late = append(late, l)
						lmu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	final := map[string]string{}
	for _, n := range names {
		g := sop{Op: "get", Op2: pOp, Kind: "Alpha", NS: "default", Name: n}.do(ps)
		final["default/"+n] = g.Objs
	}
	replay := func(o *obsv) (map[string]string, string) {
		o.mu.Lock()
		defer o.mu.Unlock()
		st := map[string]string{}
		for _, key := range sortedKeys(o.evs) {
			cur := ""
			for i, e := range o.evs[key] {
				switch {
				case e.typ == "add" && cur != "":
					return nil, fmt.Sprintf("%s: event %d of %s adds an existing object: %v", o.name, i, key, o.evs[key])
				case e.typ == "upd" && (cur == "" || e.old != cur):
					return nil, fmt.Sprintf("%s: event %d of %s updates from %q although the object was %q: %v", o.name, i, key, e.old, cur, o.evs[key])
				case e.typ == "upd" && e.obj == cur:
					return nil, fmt.Sprintf("%s: event %d of %s is an update without a change", o.name, i, key)
				case e.typ == "del" && (cur == "" || e.obj != cur):
					return nil, fmt.Sprintf("%s: event %d of %s deletes %q although the object was %q", o.name, i, key, e.obj, cur)
				}
				cur = e.obj
				if e.typ == "del" {
					cur = ""
				}
			}
			if cur != "" {
				st[key] = cur
			}
		}
		return st, ""
	}
	bad := func(o *obsv) string {
		st, msg := replay(o)
		if msg != "" {
			return msg
		}
		for key, v := range final {
			if st[key] != v {
				return fmt.Sprintf("%s: replaying the events of %s yields %q but the store has %q", o.name, key, st[key], v)
			}
		}
		return ""
	}
	quiet(append(append([]*obsv{}, obs...), late...), func(o *obsv) bool { return bad(o) == "" })
	for _, o := range append(append([]*obsv{}, obs...), late...) {
		if msg := bad(o); msg != "" {
			k.Fail("%s", msg)
		}
		k.Count("events observed", o.count())
	}
	for _, o := range obs[1:] {
		for _, n := range names {
			a, b := fmt.Sprint(obs[0].evs["default/"+n]), fmt.Sprint(o.evs["default/"+n])
			k.Check(a == b, "handlers registered before the first write saw different sequences for %s: %s has %s, %s has %s", n, obs[0].name, a, o.name, b)
		}
	}
	// handlers registered late must have seen a suffix of what the early ones saw
	for _, o := range late {
		for _, n := range names {
			full, part := obs[0].evs["default/"+n], o.evs["default/"+n]
			if len(part) > 1 {
				k.Check(len(part)-1 <= len(full) && fmt.Sprint(full[len(full)-len(part)+1:]) == fmt.Sprint(part[1:]), "a handler registered late saw %v, one registered early saw %v", part, full)
			}
		}
	}
	k.Nontrivial("multi %d %v", k.Index, obs[0].evs)
}

func c11burst(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(r.Int63(), 1<<20), 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := 1000 + r.Intn(4000)
	w, err := ps[r.Intn(len(ps))].vc.Watch(ctx, cache.NewViewObjectList(pOp, "Alpha"))
	k.Check(err == nil, "watch: %v", err)
	writers := 1 + r.Intn(4)
	var wg sync.WaitGroup
	for x := 0; x < writers; x++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n/writers; i++ {
				o := sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: fmt.Sprintf("o%d", x), Obj: m{"spec": m{"v": int64(i)}}}
				if e := o.do(ps).Err; e != "" {
					k.Report("%s: %s", o, e)
					return
				}
			}
		}()
	}
	late := r.Intn(2) == 0
	if late {
		k.Within("writing against a consumer that is not reading yet", 60*time.Second, wg.Wait)
	}
	next := make([]int64, writers)
	for got := 0; got < writers*(n/writers); got++ {
		select {
		case e, ok := <-w.ResultChan():
			k.Check(ok, "the watch channel was closed after %d of %d events", got, n)
			o := e.Object.(object.Object)
			var x int
			fmt.Sscanf(o.GetName(), "o%d", &x)
			v := o.UnstructuredContent()["spec"].(map[string]any)["v"].(int64)
			k.Check(v == next[x], "after %d events of %s the watcher received version %d instead of %d", got, o.GetName(), v, next[x])
			k.Check((e.Type == watch.Added) == (v == 0), "version %d of %s announced as %s", v, o.GetName(), e.Type)
			next[x]++
			if !late && r.Intn(200) == 0 {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			}
		case <-time.After(30 * time.Second):
			k.Fail("a watcher that keeps reading received only %d of %d events", got, n)
		}
	}
	wg.Wait()
	k.Count("burst events", n)
	// cancelling the context ends the watch
	if r.Intn(2) == 0 {
		cancel()
		k.Within("closing the channel after cancelling the context of a watch", 20*time.Second, func() {
			for range w.ResultChan() {
			}
		})
	} else {
		w.Stop()
	}
	k.Nontrivial("burst %d %d %v", n, writers, late)
}

// c11removal: a handler is removed while it is busy and events are waiting for it.
func c11removal(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(r.Int63(), 1<<20), 1)
	ctx := context.Background()
	inf, err := ps[r.Intn(len(ps))].vc.GetInformerForKind(ctx, viewGVK("Alpha"))
	k.Check(err == nil, "informer: %v", err)
	var calls, later atomic.Int64
	removed := make(chan struct{})
	busy, release := make(chan struct{}), make(chan struct{})
	at := int64(1 + r.Intn(12))
	on := func() {
		select {
		case <-removed:
			later.Add(1)
		default:
		}
		if calls.Add(1) == at {
			close(busy)
			<-release
		}
	}
	pre := r.Intn(8)
	write := func(i int) {
		del := r.Intn(4) == 0
		o := sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: fmt.Sprintf("o%d", r.Intn(9)), Obj: m{"spec": m{"v": int64(i)}}}
		if del {
			o.Op = "delete"
		}
		o.do(ps)
	}
	for i := 0; i < pre; i++ {
		write(i)
	}
	var other atomic.Int64
	oreg, err := inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{AddFunc: func(any) { other.Add(1) }})
	k.Check(err == nil && oreg != nil, "handler: %v", err)
	// whoever runs into the busy handler is blocked: the rest of the writers go on
	var reg toolscache.ResourceEventHandlerRegistration
	regs := make(chan toolscache.ResourceEventHandlerRegistration, 1)
	var wg sync.WaitGroup
	blocked := func(fn func()) {
		wg.Add(1)
		go func() { defer wg.Done(); fn() }()
	}
	blocked(func() {
		g, err := inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{AddFunc: func(any) { on() },
			UpdateFunc: func(any, any) { on() }, DeleteFunc: func(any) { on() }})
		if err != nil {
			k.Report("handler: %v", err)
		}
		regs <- g
	})
	// the registration itself may be the one that is blocked
	select {
	case reg = <-regs:
	case <-busy:
		close(release)
		wg.Wait()
		k.Count("registrations blocked", 1)
		return
	case <-time.After(20 * time.Second):
		k.Fail("registering a handler takes more than 20 s")
	}
	for i := 0; ; i++ {
		blocked(func() {
			sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: fmt.Sprintf("w%d", i), Obj: m{"spec": m{"v": int64(i)}}}.do(ps)
		})
		select {
		case <-busy:
		case <-time.After(time.Duration(r.Intn(300)) * time.Microsecond):
			continue
		}
		break
	}
	waiting := 1 + r.Intn(30)
	for i := 0; i < waiting; i++ {
		blocked(func() {
			sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: fmt.Sprintf("x%d", i), Obj: m{"spec": m{"v": int64(i)}}}.do(ps)
		})
	}
	if r.Intn(3) > 0 {
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}
	k.Within("removing a busy handler", 20*time.Second, func() {
		if err := inf.RemoveEventHandler(reg); err != nil {
			k.Report("removing a handler: %v", err)
		}
	})
	close(removed)
	if r.Intn(2) == 0 {
		k.Check(inf.RemoveEventHandler(reg) == nil, "removing a handler twice fails")
	}
	close(release)
	k.Within("writers blocked by a removed handler", 20*time.Second, wg.Wait)
	for i := 0; i < 3; i++ {
		n := fmt.Sprintf("y%d", i)
		k.Check(sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: n, Obj: m{"spec": m{"v": int64(i)}}}.do(ps).Err == "", "write failed")
	}
	k.Check(later.Load() == 0, "a handler removed while it was processing event %d with up to %d more waiting has received %d events since", at, waiting, later.Load())
	k.Count("events waiting for removed handlers", waiting)
	k.Eval(1)
	k.Nontrivial("removal %d %d %d", at, waiting, pre)
}

// c11sync: a handler has synced if it has received all that was there when it was registered.
func c11sync(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(r.Int63(), 1<<20), 1)
	ctx := context.Background()
	inf, err := ps[r.Intn(len(ps))].vc.GetInformerForKind(ctx, viewGVK("Alpha"))
	k.Check(err == nil, "informer: %v", err)
	n := 1 + r.Intn(12)
	for i := 0; i < n; i++ {
		k.Check(sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: fmt.Sprintf("o%d", i), Obj: m{"spec": m{"v": int64(0)}}}.do(ps).Err == "", "write failed")
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				sop{Path: i, Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: fmt.Sprintf("o%d", (i*7+w)%n), Obj: m{"spec": m{"v": int64(i)}}}.do(ps)
			}
		}()
	}
	pause := time.Duration(20+r.Intn(100)) * time.Microsecond
	early := 0
	for i := 0; i < 60; i++ {
		var started, done, live atomic.Int64
		reg, err := inf.AddEventHandler(toolscache.ResourceEventHandlerDetailedFuncs{
			AddFunc: func(_ any, initial bool) {
				if !initial {
					live.Add(1)
					return
				}
				started.Add(1)
				time.Sleep(pause)
				done.Add(1)
			},
			UpdateFunc: func(any, any) {
				if d := int(done.Load()); d != n {
					k.Report("a change was received after %d of the %d initial objects", d, n)
				}
			}})
		k.Check(err == nil, "handler: %v", err)
		for {
			synced := reg.HasSynced()
			d := int(done.Load())
			if synced {
				k.Check(d == n, "a handler claims to have synced after it has received %d of %d initial objects", d, n)
				break
			}
			early++
			k.Check(early < 10_000_000, "a handler does not sync")
			time.Sleep(5 * time.Microsecond)
		}
		k.Check(int(started.Load()) == n && live.Load() == 0, "a handler has received %d initial and %d further additions instead of %d", started.Load(), live.Load(), n)
		k.Check(inf.RemoveEventHandler(reg) == nil, "removal failed")
		k.Eval(1)
	}
	close(stop)
	k.Within("writers", 20*time.Second, wg.Wait)
	k.Count("polls of handlers that have not synced", early)
	k.Nontrivial("sync %d %v", n, pause)
}

// c11reenter: handlers that use the store from inside the event, like chained controllers do.
func c11reenter(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(r.Int63(), uint64(8+r.Intn(30))), 1)
	ctx := context.Background()
	copyTo := func(kind string) *obsv {
		o := &obsv{name: "copy to " + kind, evs: map[string][]tev{}}
		p := ps[r.Intn(len(ps))]
		o.hook = func(typ string, x object.Object) {
			c := vobj(pOp, kind, x.GetNamespace(), x.GetName(), m{"spec": deepCopy(x.UnstructuredContent()["spec"])})
			var err error
			if typ == "del" {
				err = p.vc.Delete(c)
			} else {
				err = p.vc.Update(nil, c)
			}
			if err != nil {
				k.Report("write from inside a handler: %v", err)
			}
			lst := cache.NewViewObjectList(pOp, "Alpha")
			if err := p.vc.List(ctx, lst); err != nil {
				k.Report("list from inside a handler: %v", err)
			}
		}
		return o
	}
	chain := []string{"Alpha", "Beta", "Gamma", "Delta"}
	for i := 0; i+1 < len(chain); i++ {
		inf, err := ps[r.Intn(len(ps))].vc.GetInformerForKind(ctx, viewGVK(chain[i]))
		k.Check(err == nil, "informer: %v", err)
		_, err = inf.AddEventHandler(copyTo(chain[i+1]))
		k.Check(err == nil, "handler: %v", err)
	}
	// a handler that registers and removes another handler
	inf, _ := ps[0].vc.GetInformerForKind(ctx, viewGVK("Alpha"))
	meta := &obsv{name: "meta", evs: map[string][]tev{}}
	meta.hook = func(string, object.Object) {
		reg, err := inf.AddEventHandler(&obsv{name: "tmp", evs: map[string][]tev{}})
		if err == nil {
			err = inf.RemoveEventHandler(reg)
		}
		if err != nil {
			k.Report("registration from inside a handler: %v", err)
		}
	}
	_, err := inf.AddEventHandler(meta)
	k.Check(err == nil, "handler: %v", err)
	var wg sync.WaitGroup
	writers := 2 + r.Intn(3)
	for w := 0; w < writers; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			cur := ""
			for i := 0; i < 30; i++ {
				name := fmt.Sprintf("o%d", w)
				if wr.Intn(3) == 0 {
					name = "shared"
					sop{Path: i, Op: []string{"put", "delete"}[wr.Intn(2)], Op2: pOp, Kind: "Alpha", NS: "default", Name: name, Obj: storeContent(wr, fmt.Sprint(w, i))}.do(ps)
					continue
				}
				o, next := changeStore(wr, ps[0], "default", name, cur, fmt.Sprintf("w%d-%d", w, i))
				if e := o.do(ps).Err; e != "" {
					k.Report("%s: %s", o, e)
				}
				cur = next
			}
		}()
	}
	k.Within("writers with re-entrant handlers", 60*time.Second, wg.Wait)
	specs := func(kind string) string {
		var out []string
		lst := cache.NewViewObjectList(pOp, kind)
		if err := ps[0].vc.List(ctx, lst); err != nil {
			return err.Error()
		}
		for i := range lst.Items {
			x := &lst.Items[i]
			out = append(out, x.GetName()+canon(x.UnstructuredContent()["spec"]))
		}
		return strings.Join(sortStrings(out), "\n")
	}
	deadline := time.Now().Add(15 * time.Second)
	for _, kind := range chain[1:] {
		for specs(kind) != specs("Alpha") && time.Now().Before(deadline) {
			time.Sleep(time.Millisecond)
		}
		k.Check(specs(kind) == specs("Alpha"), "copies made by chained handlers did not converge: %s has\n%s\nAlpha has\n%s", kind, specs(kind), specs("Alpha"))
	}
	k.Nontrivial("reenter %d %s", k.Index, specs("Alpha"))
}

// c12setup: sequential histories with arbitrary set-up order; every change is observed exactly once
// by every handler that exists, and at once readable everywhere.
func c12setup(k *K) {
	r := k.R
	vc, ps := newStore(jitterLog(r.Int63(), 1<<40), 0)
	kinds := []string{"Alpha", "Beta"}
	model := map[string]smodel{"Alpha": {}, "Beta": {}}
	type hh struct {
		kind string
		o    *obsv
		p    vpath
		from map[string]string
	}
	var hs []*hh
	removedInf := map[string]bool{} // path/kind whose informer was removed
	seqs := map[string][]string{}   // kind/key -> versions
	ctx := context.Background()
	for i, n := 0, 20+r.Intn(30); i < n; i++ {
		switch x := r.Intn(12); {
		case x == 0: // attach another cache
			if len(ps) < 7 {
				d := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
				ps = append(ps, vpath{fmt.Sprintf("late%d", i), d, d.GetClient()})
				k.Log("attach %s", ps[len(ps)-1].name)
			}
		case x <= 2: // register a handler
			kind := kinds[r.Intn(2)]
			p := ps[r.Intn(len(ps))]
			inf, err := p.vc.GetInformerForKind(ctx, viewGVK(kind))
			k.Check(err == nil, "informer: %v", err)
			o := &obsv{name: fmt.Sprintf("h%d on %s/%s", i, p.name, kind), evs: map[string][]tev{}, lo: map[string]int{}}
			for key, s := range seqs {
				if strings.HasPrefix(key, kind+"|") {
					o.lo[key] = len(s) - 1
				}
			}
			reg, err := inf.AddEventHandler(o)
			k.Check(err == nil, "handler: %v", err)
			o.inf, o.reg = inf, reg
			hs = append(hs, &hh{kind, o, p, nil})
			k.Log("register %s", o.name)
		case x == 3 && len(hs) > 0: // remove the informer of one cache
			h := hs[r.Intn(len(hs))]
			if h.p.name == "shared" || h.p.name == "api" || r.Intn(2) == 0 {
				if h.o.gone.Load() {
					continue
				}
				h.o.gone.Store(true)
				h.o.doneN = h.o.count()
				k.Check(h.o.inf.RemoveEventHandler(h.o.reg) == nil, "remove handler")
				k.Log("remove handler %s", h.o.name)
				continue
			}
			k.Check(h.p.vc.RemoveInformer(ctx, vobj(pOp, h.kind, "", "", nil)) == nil, "remove informer")
			removedInf[h.p.name+"/"+h.kind] = true
			for _, g := range hs {
				if g.p.name == h.p.name && g.kind == h.kind && !g.o.gone.Load() {
					g.o.gone.Store(true)
					g.o.doneN = g.o.count()
				}
			}
			k.Log("remove informer %s/%s", h.p.name, h.kind)
		default:
			kind := kinds[r.Intn(2)]
			ns, name := []string{"default", "other", ""}[r.Intn(3)], []string{"a", "b"}[r.Intn(2)]
			key := pOp + "/" + kind + "/" + ns + "/" + name
			cur := model[kind][key]
			o, next := changeStore(r, ps[0], ns, name, cur, fmt.Sprintf("v%d", i))
			o.Kind = kind
			if next != "" {
				x := parseJSON(next)
				x["kind"] = kind
				next = canon(x)
			}
			if o.Obj != nil && o.Obj["kind"] != nil {
				o.Obj["kind"] = kind
			}
			o.Path = r.Intn(len(ps))
			k.Log("%d %s", i, o)
			res := o.do(ps)
			k.Check(res.Err == "", "%s: %s", o, res.Err)
			if next == "" {
				delete(model[kind], key)
			} else {
				model[kind][key] = next
			}
			sk := kind + "|" + ns + "/" + name
			if len(seqs[sk]) == 0 {
				seqs[sk] = []string{""}
			}
			if next != cur {
				seqs[sk] = append(seqs[sk], next)
			}
			// visible through every cache at once
			for pi := range ps {
				g := sop{Path: pi, Op: []string{"get", "cget"}[r.Intn(2)], Op2: pOp, Kind: kind, NS: ns, Name: name}
				res := g.do(ps)
				k.Check(res.Objs == next && (res.Err == "notfound") == (next == ""), "after %s through %s, %s reads %+v instead of %q", o, ps[o.Path].name, ps[pi].name, res, next)
			}
		}
	}
	live := 0
	for _, h := range hs {
		for sk, states := range seqs {
			if !strings.HasPrefix(sk, h.kind+"|") {
				continue
			}
			key := sk[len(h.kind)+1:]
			if m := h.o.verify(key, states, h.o.lo[sk], h.o.lo[sk], h.o.gone.Load()); m != "" {
				k.Fail("%s", m)
			}
		}
		if h.o.gone.Load() {
			k.Check(h.o.count() == h.o.doneN, "%s received events after its removal", h.o.name)
		} else {
			live++
		}
		for key := range h.o.evs {
			k.Check(len(seqs[h.kind+"|"+key]) > 0, "%s received events of an unknown object %s", h.o.name, key)
		}
		k.Count("events observed", h.o.count())
	}
	k.Count("handlers", len(hs))
	if live > 1 {
		k.Nontrivial("setup %d %d", k.Index, live)
	}
}

// c12lifecycle starts and stops attached caches while others are being used.
func c12lifecycle(k *K) {
	r := k.R
	_, ps := newStore(jitterLog(r.Int63(), uint64(10+r.Intn(40))), 3)
	none := func() map[string]int { return map[string]int{} }
	ctxs := make([]context.CancelFunc, len(ps))
	dones := make([]chan struct{}, len(ps))
	var obs []*obsv
	startAt := r.Intn(2)
	start := func(i int) {
		ctx, cancel := context.WithCancel(context.Background())
		ctxs[i] = cancel
		dones[i] = make(chan struct{})
		go func() { defer close(dones[i]); ps[i].vc.Start(ctx) }() //nolint:errcheck
	}
	dels := []int{2, 4, 6}
	if startAt == 0 {
		for _, i := range dels {
			start(i)
		}
	}
	for i := 0; i < len(ps); i++ {
		obs = append(obs, observe(k, ps[i], i, r, fmt.Sprintf("o%d", i), r.Intn(3) == 0 && i < 2, none, none))
	}
	if startAt == 1 {
		for _, i := range dels {
			start(i)
		}
	}
	victim := dels[r.Intn(3)]
	t := &truth{states: []string{""}}
	var wg sync.WaitGroup
	at := r.Intn(30)
	wg.Add(1)
	go func() {
		defer wg.Done()
		cur := ""
		for i := 0; i < 40; i++ {
			o, next := changeStore(r, ps[0], "default", "a", cur, fmt.Sprintf("v%d", i))
			o.Path = r.Intn(len(ps))
			if next != cur {
				t.states = append(t.states, next)
			}
			if e := o.do(ps).Err; e != "" {
				k.Report("%s: %s", o, e)
			}
			cur = next
			if i == at {
				ctxs[victim]()
			}
		}
	}()
	wg.Wait()
	k.Within("stopping a cache", 20*time.Second, func() { <-dones[victim] })
	// the stopped cache is done by now; write once more
	final := canon(parseJSON(stripUID(vobj(pOp, "Alpha", "default", "a", m{"spec": m{"v": "final"}}).UnstructuredContent())))
	k.Check(sop{Path: dels[(r.Intn(3))], Op: "put", Op2: pOp, Kind: "Alpha", NS: "default", Name: "a", Obj: m{"spec": m{"v": "final"}}}.do(ps).Err == "", "final write")
	t.states = append(t.states, final)
	check := func(o *obsv) string {
		return o.verify("default/a", t.states, 0, 0, o.cache == victim || o.cache == victim+1)
	}
	quiet(obs, func(o *obsv) bool { return check(o) == "" })
	for _, o := range obs {
		if m := check(o); m != "" {
			k.Fail("after stopping %s: %s", ps[victim].name, m)
		}
		k.Count("events observed", o.count())
		if o.watch != nil {
			o.watch.Stop()
		}
	}
	for pi := range ps {
		g := sop{Path: pi, Op: "get", Op2: pOp, Kind: "Alpha", NS: "default", Name: "a"}.do(ps)
		k.Check(g.Objs == final, "after stopping %s, %s reads %+v", ps[victim].name, ps[pi].name, g)
	}
	for _, i := range dels {
		ctxs[i]()
	}
	k.Nontrivial("life %d %d %d", k.Index, victim, at)
}
