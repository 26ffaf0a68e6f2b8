package main

import (
	"context"
	"fmt"
	"maps"
	"math/rand"
	"slices"
	"strings"

	"github.com/go-logr/logr"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/discovery"
	fakediscovery "k8s.io/client-go/discovery/fake"
	clienttesting "k8s.io/client-go/testing"
	"sigs.k8s.io/controller-runtime/pkg/client"
	ctrlmanager "sigs.k8s.io/controller-runtime/pkg/manager"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

// C25: names, kinds and resources of views map consistently.

func init() {
	checks["C25"] = func(c *Ctx) {
		c.Rule("evaluations = groups, kinds and references classified or converted and compared with the documented naming rules; discovery documents compared with the registered kinds; REST mapper lookups; operations of clients on views of operators with look-alike names whose effect on all the look-alike views was compared")
		c.Rule("distinct_nontrivial = distinct (operator name shape, kind shape, operation) tuples")
		c.Assume("kinds whose own name ends in List are list kinds by convention; two registered kinds of a group that differ only in case share a resource name and either may be returned")
		c.Section("naming", c.N(20000, 400000), 8, c25naming)
		c.Section("discovery", c.N(4000, 40000), 8, c25discovery)
		c.Section("clients", c.N(2500, 20000), 8, c25clients)
		c.withNative(1, func(e *natEnv) {
			c.Section("native", 1, 1, func(k *K) { c25native(k, e) })
		})
	}
}

const c25suffix = "view.dcontroller.io"

func c25opname(r *rand.Rand) string {
	seg := func() string {
		return pick(r, "a", "b", "op", "test", "view", "dcontroller", "io", "core", "apps", "v1", "v1beta1", "x-1", "my-op", "list", fmt.Sprintf("n%d", r.Intn(50)))
	}
	s := seg()
	for r.Intn(3) == 0 {
		s += "." + seg()
	}
	if r.Intn(30) == 0 {
		s += "." + c25suffix
	}
	return s
}

func c25kind(r *rand.Rand) string {
	return pick(r, "T", "View", "TestView", "API", "HTTPRoute", "lower", "camelCase", "Lists", "Listing", "Li", "View2", "K8s", fmt.Sprintf("Kind%d", r.Intn(100)))
}

func c25group(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		return c25opname(r) + "." + c25suffix
	case 4:
		return pick(r, "", "apps", "batch", "rbac.authorization.k8s.io", "example.com", "dcontroller.io", "io", "gateway.networking.k8s.io")
	case 5: // look alike
		return pick(r, "myview.dcontroller.io", "review.dcontroller.io", "a.b-view.dcontroller.io", "op.view.dcontroller.io.example.com", "view.dcontroller.io.", "op.view.dcontroller.com",
			"op.View.dcontroller.io", "dcontroller.io", "op.viewdcontroller.io", "preview.dcontroller.io", "op.xview.dcontroller.io", "x"+c25suffix)
	case 6:
		return c25suffix
	case 7:
		return c25opname(r)
	default:
		return c25opname(r) + pick(r, ".", "", "-") + c25suffix
	}
}

func c25isView(group string) bool {
	return group == c25suffix || len(group) > len(c25suffix) && strings.HasSuffix(group, "."+c25suffix)
}

func c25naming(k *K) {
	r := k.R
	op, kind := c25opname(r), c25kind(r)
	want := schema.GroupVersionKind{Group: op + "." + c25suffix, Version: "v1alpha1", Kind: kind}
	k.Check(viewv1a1.Group(op) == want.Group, "Group(%s) is %s", op, viewv1a1.Group(op))
	k.Check(viewv1a1.GroupVersion(op) == want.GroupVersion(), "GroupVersion(%s) is %s", op, viewv1a1.GroupVersion(op))
	k.Check(viewv1a1.GroupVersionKind(op, kind) == want, "GroupVersionKind(%s, %s) is %s", op, kind, viewv1a1.GroupVersionKind(op, kind))
	k.Check(object.NewViewObject(op, kind).GroupVersionKind() == want, "NewViewObject(%s, %s) is %s", op, kind, object.NewViewObject(op, kind).GroupVersionKind())
	lw := want
	lw.Kind += "List"
	k.Check(cache.NewViewObjectList(op, kind).GetObjectKind().GroupVersionKind() == lw, "NewViewObjectList(%s, %s) is %s", op, kind, cache.NewViewObjectList(op, kind).GetObjectKind().GroupVersionKind())
	if !strings.Contains(op, ".") {
		k.Check(viewv1a1.GetOperator(want) == op, "GetOperator(%s) is %q", want, viewv1a1.GetOperator(want))
	}

	// views are told apart from native groups the same way everywhere
	d := cache.NewViewDiscovery()
	cd := cache.NewCompositeDiscoveryClient(nil)
	g := schema.GroupVersionKind{Group: c25group(r), Version: pick(r, "v1alpha1", "v1alpha1", "v1alpha1", "v1", "v1beta1", ""), Kind: kind}
	is := c25isView(g.Group)
	isKind := is && g.Version == "v1alpha1"
	k.Check(viewv1a1.IsViewGroup(g.Group) == is, "viewv1a1.IsViewGroup(%q) is %v", g.Group, !is)
	k.Check(d.IsViewGroup(g.Group) == is, "ViewDiscovery.IsViewGroup(%q) is %v", g.Group, !is)
	k.Check(cd.IsViewGroup(g.Group) == is, "CompositeDiscovery.IsViewGroup(%q) is %v", g.Group, !is)
	k.Check(viewv1a1.IsViewGroupVersion(g.GroupVersion()) == isKind, "IsViewGroupVersion(%s) is %v", g.GroupVersion(), !isKind)
	k.Check(viewv1a1.IsViewKind(g) == isKind, "IsViewKind(%s) is %v", g, !isKind)
	k.Check(d.IsViewKind(g) == isKind && cd.IsViewKind(g) == isKind, "discovery: IsViewKind(%s) is %v", g, !isKind)
	k.Check(!d.IsViewListKind(g), "discovery: %s is a list kind", g)
	gl := g
	gl.Kind += "List"
	k.Check(d.IsViewListKind(gl) == isKind && !d.IsViewKind(gl), "discovery: IsViewListKind(%s) is %v, IsViewKind %v", gl, d.IsViewListKind(gl), d.IsViewKind(gl))
	k.Check(viewv1a1.HasViewGroupVersionKind(g.Group, g) == (g.Version == "v1alpha1") && !viewv1a1.HasViewGroupVersionKind("other."+g.Group, g), "HasViewGroupVersionKind(%s, %s)", g.Group, g)
	if isKind {
		k.Check(d.ListGVKFromObjectGVK(g) == gl, "the list kind of %s is %s", g, d.ListGVKFromObjectGVK(g))
		k.Check(d.ObjectGVKFromListGVK(gl) == g, "the object kind of %s is %s", gl, d.ObjectGVKFromListGVK(gl))
	} else {
		k.Check(d.ListGVKFromObjectGVK(g) == g && d.ObjectGVKFromListGVK(gl) == gl, "%s is not a view but is converted: %s, %s", g, d.ListGVKFromObjectGVK(g), d.ObjectGVKFromListGVK(gl))
	}
	k.Check(d.ResourceFromKind(kind) == strings.ToLower(kind) && d.ResourceFromKind(kind+"List") == strings.ToLower(kind), "the resources of %s and %sList: %s, %s", kind, kind, d.ResourceFromKind(kind), d.ResourceFromKind(kind+"List"))

	// the composite client keeps native objects apart from views: without an API server only views work
	cl := newHeadless(k).GetClient()
	o := object.New()
	o.SetGroupVersionKind(g)
	object.SetName(o, "n", "x")
	err := cl.Create(context.Background(), o)
	k.Check((err == nil) == isKind, "creating a %s (view: %v) through the composite client: %v", g, isKind, err)

	// REST mapping
	vm := cache.NewViewRESTMapper()
	for _, m := range []interface {
		RESTMappingOf(gk schema.GroupKind, v string) (schema.GroupVersionResource, schema.GroupVersionKind, bool, error)
	}{c25mapper{vm}, c25mapper{cache.NewCompositeRESTMapper(cd)}, c25mapper{cache.NewCompositeRESTMapper(c25fakeDiscovery())}} {
		if !is && g.Group == "apps" {
			continue
		}
		v := pick(r, "", "v1alpha1")
		gvr, gvk, namespaced, err := m.RESTMappingOf(g.GroupKind(), v)
		if !is {
			k.Check(err != nil, "%T maps %s, which is not a view, to %s", m.(c25mapper).m, g.GroupKind(), gvr)
			continue
		}
		k.Check(err == nil, "%T does not map %s: %v", m.(c25mapper).m, g.GroupKind(), err)
		wr := schema.GroupVersionResource{Group: g.Group, Version: "v1alpha1", Resource: strings.ToLower(kind)}
		k.Check(gvr == wr && gvk == wr.GroupVersion().WithKind(kind) && namespaced, "%T maps %s to %s, %s, namespaced %v", m.(c25mapper).m, g.GroupKind(), gvr, gvk, namespaced)
	}

	// native kinds in views
	ng := schema.GroupVersionKind{Group: pick(r, "", "apps", "batch", "rbac.authorization.k8s.io", "example.com", "gateway.networking.k8s.io", "v1.example.com", "a.v2.b"), Version: pick(r, "v1", "v1beta1", "v2", "v1alpha1", "v2beta10"), Kind: kind}
	sop := pick(r, "op", "my-op", "view", "x1", "a.b", "my.dotted.op")
	mv := viewv1a1.MapIntoView(sop, ng)
	k.Check(viewv1a1.IsViewKind(mv) && mv.Kind == kind && strings.HasSuffix(mv.Group, "."+viewv1a1.Group(sop)), "MapIntoView(%s, %s) is %s", sop, ng, mv)
	back, err := viewv1a1.MapFromView(mv)
	k.Check(err == nil && back == ng, "MapFromView(MapIntoView(%s, %s) = %s) is %s, %v", sop, ng, mv, back, err)
	if !is {
		_, err := viewv1a1.MapFromView(g)
		k.Check(err != nil, "MapFromView(%s) does not fail", g)
	}

	// references
	c25reference(k, op, kind)
	k.Eval(20)
	k.Nontrivial("naming %s %s %s", op, g.Group, kind)
}

type c25mapper struct {
	m interface {
		KindFor(schema.GroupVersionResource) (schema.GroupVersionKind, error)
	}
}

func (c c25mapper) RESTMappingOf(gk schema.GroupKind, v string) (gvr schema.GroupVersionResource, gvk schema.GroupVersionKind, namespaced bool, err error) {
	var vs []string
	if v != "" {
		vs = []string{v}
	}
	switch m := c.m.(type) {
	case *cache.ViewRESTMapper:
		mp, e := m.RESTMapping(gk, vs...)
		if e != nil {
			return gvr, gvk, false, e
		}
		return mp.Resource, mp.GroupVersionKind, mp.Scope.Name() == "namespace", nil
	case *cache.CompositeRESTMapper:
		mp, e := m.RESTMapping(gk, vs...)
		if e != nil {
			return gvr, gvk, false, e
		}
		return mp.Resource, mp.GroupVersionKind, mp.Scope.Name() == "namespace", nil
	}
	return
}

func c25fakeDiscovery() discovery.DiscoveryInterface {
	f := &fakediscovery.FakeDiscovery{Fake: &clienttesting.Fake{}}
	f.Resources = []*metav1.APIResourceList{{GroupVersion: "apps/v1", APIResources: []metav1.APIResource{{Name: "deployments", SingularName: "deployment", Namespaced: true, Kind: "Deployment", Verbs: []string{"get"}}}}}
	return f
}

func newHeadless(k *K) *cache.API {
	api, err := cache.NewAPI(nil, cache.APIOptions{Logger: logr.Discard()})
	k.Check(err == nil, "NewAPI: %v", err)
	return api
}

// c25reference: references of sources and targets resolve to the documented kinds.
func c25reference(k *K, op, kind string) {
	r := k.R
	mgr, err := manager.NewFakeManager(manager.Options{})
	k.Check(err == nil, "fake manager: %v", err)
	ref := opv1a1.Resource{Kind: kind}
	own := viewv1a1.Group(op)
	want := schema.GroupVersionKind{Group: own, Version: "v1alpha1", Kind: kind}
	ver := pick(r, "v1", "v1alpha1", "v9")
	wantErr := false
	switch r.Intn(8) {
	case 0: // a view of the operator
	case 1: // the version does not matter
		ref.Version = &ver
	case 2:
		ref.Group = &own
	case 3:
		ref.Group, ref.Version = &own, &ver
	case 4: // another operator's
		o := viewv1a1.Group(op + "x")
		ref.Group = &o
		want.Group = o
	case 5:
		o := viewv1a1.Group("x." + op)
		v := "v1alpha1"
		ref.Group, ref.Version = &o, &v
		want.Group = o
	case 6: // native
		g := pick(r, "", "apps", "example.com", "myview.dcontroller.io")
		ref.Group, ref.Version = &g, &ver
		want = schema.GroupVersionKind{Group: g, Version: ver, Kind: kind}
	default:
		ref.Kind = ""
		wantErr = true
	}
	res := reconciler.NewResource(mgr, op, ref)
	got, err := res.GetGVK()
	k.Check((err != nil) == wantErr, "operator %s: the reference %s resolves to %s, %v", op, js(ref), got, err)
	if wantErr {
		return
	}
	k.Check(got == want, "operator %s: the reference %s resolves to %s instead of %s", op, js(ref), got, want)
	g := got.Group
	if g == "" {
		g = "core"
	}
	k.Check(res.String() == fmt.Sprintf("%s/%s:%s", g, got.Version, got.Kind), "operator %s: the reference %s is shown as %s", op, js(ref), res)
}

// c25discovery: discovery lists exactly the registered kinds, whatever the history.
func c25discovery(k *K) {
	r := k.R
	var native discovery.DiscoveryInterface
	if r.Intn(2) == 0 {
		native = c25fakeDiscovery()
	}
	cd := cache.NewCompositeDiscoveryClient(native)
	var d cache.ViewDiscoveryInterface = cd
	if r.Intn(3) == 0 {
		d, native = cache.NewViewDiscovery(), nil
	}
	reg := map[schema.GroupVersionKind]bool{}
	groups := []string{viewv1a1.Group(c25opname(r)), viewv1a1.Group(c25opname(r)), c25group(r), "myview.dcontroller.io", "apps"}
	for step := 0; step < 12; step++ {
		g := schema.GroupVersionKind{Group: pick(r, groups...), Version: pick(r, "v1alpha1", "v1alpha1", "v1alpha1", "v1"), Kind: c25kind(r)}
		switch x := r.Intn(6); {
		case x == 0:
			k.Check(d.RegisterViewGVK(schema.GroupVersionKind{Group: g.Group, Version: g.Version, Kind: g.Kind + "List"}) == nil, "registering the list of %s fails", g)
		case x < 5:
			k.Check(d.RegisterViewGVK(g) == nil, "registering %s fails", g)
			if c25isView(g.Group) && g.Version == "v1alpha1" {
				reg[g] = true
			}
		default:
			for o := range reg {
				if r.Intn(3) == 0 {
					g = o
				}
			}
			k.Check(d.UnregisterViewGVK(g) == nil, "unregistering %s fails", g)
			delete(reg, g)
		}
		c25checkDiscovery(k, d, reg, native != nil)
	}
	if _, ok := d.(*cache.CompositeDiscoveryClient); !ok {
		return
	}
	// the REST mapper knows the registered views
	m := cache.NewCompositeRESTMapper(cd)
	for g := range reg {
		twins := 0
		for o := range reg {
			if o.Group == g.Group && strings.EqualFold(o.Kind, g.Kind) {
				twins++
			}
		}
		gvr := schema.GroupVersionResource{Group: g.Group, Version: pick(r, "v1alpha1", ""), Resource: strings.ToLower(g.Kind)}
		got, err := m.KindFor(gvr)
		k.Check(err == nil && (got == g || twins > 1 && strings.EqualFold(got.Kind, g.Kind)), "the kind of %s is %s (%v) instead of %s", gvr, got, err, g)
		gots, err := m.KindsFor(gvr)
		k.Check(err == nil && len(gots) == 1 && (gots[0] == g || twins > 1), "the kinds of %s are %v (%v) instead of %s", gvr, gots, err, g)
		res, err := m.ResourceFor(gvr)
		gvr.Version = "v1alpha1"
		k.Check(err == nil && res == gvr, "the resource of %s is %s (%v)", gvr, res, err)
		ress, err := m.ResourcesFor(gvr)
		k.Check(err == nil && slices.Equal(ress, []schema.GroupVersionResource{gvr}), "the resources of %s are %v (%v)", gvr, ress, err)
		mp, err := m.RESTMapping(g.GroupKind())
		k.Check(err == nil && mp.Resource == gvr && mp.GroupVersionKind == g, "the mapping of %s is %v (%v)", g, mp, err)
		k.Eval(5)
	}
	if native != nil {
		got, err := m.KindFor(schema.GroupVersionResource{Group: "apps", Resource: "deployments"})
		k.Check(err == nil && got == schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "Deployment"}, "the kind of deployments is %s, %v", got, err)
	}
}

func c25checkDiscovery(k *K, d cache.ViewDiscoveryInterface, reg map[schema.GroupVersionKind]bool, native bool) {
	got := d.GetRegisteredViewGVKs()
	k.Check(len(got) == len(reg), "registered: %v instead of %v", got, reg)
	for _, g := range got {
		k.Check(reg[g], "registered: %s is not in %v", g, reg)
	}
	want := map[string][]string{} // group -> resources
	for g := range reg {
		want[g.Group] = append(want[g.Group], g.Kind)
	}
	gl, err := d.ServerGroups()
	k.Check(err == nil, "ServerGroups: %v", err)
	c25groups(k, "ServerGroups", gl.Groups, want, native)
	gs, rs, err := d.ServerGroupsAndResources()
	k.Check(err == nil, "ServerGroupsAndResources: %v", err)
	var flat []metav1.APIGroup
	for _, g := range gs {
		flat = append(flat, *g)
	}
	c25groups(k, "ServerGroupsAndResources", flat, want, native)
	c25resources(k, "ServerGroupsAndResources", rs, want, native)
	rs, err = d.ServerPreferredResources()
	k.Check(err == nil, "ServerPreferredResources: %v", err)
	if native { // the fake native discovery has no preferred resources
		rs = slices.DeleteFunc(rs, func(l *metav1.APIResourceList) bool { return l.GroupVersion == "apps/v1" })
	}
	c25resources(k, "ServerPreferredResources", rs, want, false)
	rs, err = d.ServerPreferredNamespacedResources()
	k.Check(err == nil, "ServerPreferredNamespacedResources: %v", err)
	c25resources(k, "ServerPreferredNamespacedResources", rs, want, false)
	for g, kinds := range want {
		l, err := d.ServerResourcesForGroupVersion(g + "/v1alpha1")
		k.Check(err == nil && l.GroupVersion == g+"/v1alpha1", "ServerResourcesForGroupVersion(%s): %v, %v", g, l, err)
		c25resources(k, "ServerResourcesForGroupVersion", []*metav1.APIResourceList{l}, map[string][]string{g: kinds}, false)
		for _, kd := range kinds {
			got, err := d.KindFromResource(strings.ToLower(kd))
			ok := false
			for o := range reg {
				ok = ok || o.Kind == got && strings.EqualFold(got, kd)
			}
			k.Check(err == nil && ok, "the kind of the resource %s is %s, %v", strings.ToLower(kd), got, err)
		}
	}
	_, err = d.KindFromResource("nosuchresource")
	k.Check(err != nil, "the resource nosuchresource has a kind")
	l, err := d.ServerResourcesForGroupVersion("none.view.dcontroller.io/v1alpha1")
	k.Check(err != nil || len(l.APIResources) == 0, "an unknown group has resources %v", l)
	k.Eval(8)
	k.Count("registered", len(reg))
	ks := []string{}
	for g := range reg {
		ks = append(ks, g.String())
	}
	slices.Sort(ks)
	k.Nontrivial("discovery %v", ks)
}

func c25groups(k *K, what string, gs []metav1.APIGroup, want map[string][]string, native bool) {
	seen := map[string]bool{}
	for _, g := range gs {
		k.Check(!seen[g.Name], "%s lists the group %s twice: %v", what, g.Name, gs)
		seen[g.Name] = true
		if native && g.Name == "apps" {
			continue
		}
		k.Check(want[g.Name] != nil, "%s lists the group %s, registered: %v", what, g.Name, want)
		k.Check(len(g.Versions) == 1 && g.Versions[0] == metav1.GroupVersionForDiscovery{GroupVersion: g.Name + "/v1alpha1", Version: "v1alpha1"} && g.PreferredVersion == g.Versions[0],
			"%s: the group %s has the versions %v, preferred %v", what, g.Name, g.Versions, g.PreferredVersion)
	}
	for g := range want {
		k.Check(seen[g], "%s does not list the group %s", what, g)
	}
	k.Check(seen["apps"] == native, "%s lists the native group: %v", what, seen["apps"])
}

func c25resources(k *K, what string, rs []*metav1.APIResourceList, want map[string][]string, native bool) {
	lists := map[string]bool{}
	for _, l := range rs {
		k.Check(!lists[l.GroupVersion], "%s lists %s twice", what, l.GroupVersion)
		lists[l.GroupVersion] = true
		if native && l.GroupVersion == "apps/v1" {
			continue
		}
		g := strings.TrimSuffix(l.GroupVersion, "/v1alpha1")
		left := map[string]bool{}
		for _, kd := range want[g] {
			left[kd] = true
		}
		k.Check(len(left) > 0, "%s lists %s, registered: %v", what, l.GroupVersion, want)
		for _, res := range l.APIResources {
			k.Check(left[res.Kind], "%s: %s lists %s (again?), registered: %v", what, g, res.Kind, want[g])
			delete(left, res.Kind)
			vs := slices.Clone(res.Verbs)
			slices.Sort(vs)
			k.Check(res.Name == strings.ToLower(res.Kind) && res.SingularName == res.Name && res.Namespaced && (res.Group == "" || res.Group == g) && (res.Version == "" || res.Version == "v1alpha1") &&
				slices.Equal(vs, []string{"create", "delete", "deletecollection", "get", "list", "patch", "update", "watch"}), "%s: %s %s is described as %v", what, g, res.Kind, res)
		}
		k.Check(len(left) == 0, "%s: %s misses %v", what, g, left)
	}
	for g := range want {
		k.Check(lists[g+"/v1alpha1"], "%s misses %s", what, g)
	}
}

// c25clients: operations on the views of an operator never touch those of operators with similar names.
func c25clients(k *K) {
	r := k.R
	ctx := context.Background()
	base := c25opname(r)
	parts := strings.Split(base, ".")
	ops := []string{base, parts[len(parts)-1], parts[0], "x." + base, base + ".x", "x" + base, base + "x"}
	slices.Sort(ops)
	ops = slices.Compact(ops)
	kind := c25kind(r)
	kinds := []string{kind, kind + "s", "X" + kind, strings.ToUpper(kind)}
	slices.Sort(kinds)
	kinds = slices.Compact(kinds)
	api := newHeadless(k)
	vc := api.GetCache().GetViewCache().(*cache.ViewCache)
	var gvks []schema.GroupVersionKind
	for _, op := range ops {
		for _, kd := range kinds {
			gvks = append(gvks, opGVK(op, kd))
		}
	}
	model := map[string]string{}
	set := func(g schema.GroupVersionKind, nm, val string) { model[g.String()+" "+nm] = val }
	var cl client.Client = api.GetClient()
	if r.Intn(2) == 0 {
		cl = vc.GetClient()
	}
	n := 0
	for step := 0; step < 25; step++ {
		g := pick(r, gvks...)
		nm := pick(r, "o1", "o2")
		key := g.String() + " " + nm
		old, exists := model[key]
		o := object.New()
		o.SetGroupVersionKind(g)
		object.SetName(o, "ns", nm)
		n++
		val := fmt.Sprint(n)
		var err error
		what := ""
		wantErr := false
		k.Protect("client operation", func() {
			switch x := r.Intn(14); {
			case x < 5:
				what = "create"
				o.Object["v"] = val
				err = cl.Create(ctx, o)
				set(g, nm, val)
			case x == 5:
				what, wantErr = "get", !exists
				err = cl.Get(ctx, client.ObjectKeyFromObject(o), o)
				if err == nil {
					k.Check(o.GroupVersionKind() == g && o.Object["v"] == old, "get %s returns %s", key, js(o))
				}
			case x == 6:
				what, wantErr = "update", !exists
				o.Object["v"] = val
				err = cl.Update(ctx, o)
				if exists {
					set(g, nm, val)
				}
			case x == 7:
				what, wantErr = "delete", !exists
				err = cl.Delete(ctx, o)
				delete(model, key)
			case x == 8:
				what, wantErr = "patch", !exists
				err = cl.Patch(ctx, o, client.RawPatch("application/merge-patch+json", []byte(`{"v":"`+val+`"}`)))
				if exists {
					set(g, nm, val)
				}
			case x == 9:
				what = "delete-all-of"
				err = cl.DeleteAllOf(ctx, o, client.InNamespace("ns"))
				delete(model, g.String()+" o1")
				delete(model, g.String()+" o2")
			case x == 10:
				what, wantErr = "status update", !exists
				o.Object["status"] = map[string]any{"s": val}
				err = cl.Status().Update(ctx, o)
			case x == 11:
				what, wantErr = "status get", !exists
				if exists {
					full := object.New()
					full.SetGroupVersionKind(g)
					k.Check(cl.Get(ctx, client.ObjectKeyFromObject(o), full) == nil, "get %s fails", key)
					st, ok := full.Object["status"].(map[string]any)
					wantErr = !ok
					sub := object.New()
					err = cl.SubResource("status").Get(ctx, o, sub)
					if err == nil && ok {
						k.Check(js(sub.UnstructuredContent()) == js(st), "the status of %s is %s instead of %s", key, js(sub), js(st))
					}
				} else {
					err = cl.SubResource("status").Get(ctx, o, object.New())
				}
			default:
				what = "list"
				l := &unstructured.UnstructuredList{}
				l.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
				err = cl.List(ctx, l)
				got := map[string]string{}
				for _, x := range l.Items {
					k.Check(x.GroupVersionKind() == g, "listing %s returns %s", g, js(x))
					got[x.GetName()] = fmt.Sprint(x.Object["v"])
				}
				want := map[string]string{}
				for _, nm := range []string{"o1", "o2"} {
					if v, ok := model[g.String()+" "+nm]; ok {
						want[nm] = v
					}
				}
				k.Check(maps.Equal(got, want), "listing %s returns %v instead of %v", g, got, want)
			}
		})
		k.Log("%s %s", what, key)
		k.Check((err != nil) == wantErr, "%s %s (exists: %v): %v", what, key, exists, err)
		now := map[string]string{}
		for _, g := range gvks {
			for _, x := range storeList(k, vc, g) {
				now[g.String()+" "+x.GetName()] = fmt.Sprint(x.UnstructuredContent()["v"])
			}
		}
		k.Check(maps.Equal(now, model), "after %s %s: the views are %v instead of %v", what, key, now, model)
		k.Eval(1)
		k.Nontrivial("client %s %s %s %v", what, g.Group, g.Kind, exists)
	}
}

// c25native: references to native kinds resolve to the version that the API server prefers.
func c25native(k *K, e *natEnv) {
	skip := manager.Options{Metrics: metricsserver.Options{BindAddress: "0"}, HealthProbeBindAddress: "0", Scheme: runtime.NewScheme()}
	mgr, err := ctrlmanager.New(e.cfg, skip)
	k.Check(err == nil, "manager: %v", err)
	dc, err := discovery.NewDiscoveryClientForConfig(e.cfg)
	k.Check(err == nil, "discovery: %v", err)
	gs, rls, err := dc.ServerGroupsAndResources()
	k.Check(err == nil, "discovery: %v", err)
	served := map[schema.GroupVersionKind]metav1.APIResource{}
	for _, l := range rls {
		gv, _ := schema.ParseGroupVersion(l.GroupVersion)
		for _, res := range l.APIResources {
			if !strings.Contains(res.Name, "/") {
				served[gv.WithKind(res.Kind)] = res
			}
		}
	}
	checked := map[schema.GroupKind]bool{}
	api, err := cache.NewAPI(e.cfg, cache.APIOptions{Logger: logr.Discard()})
	k.Check(err == nil, "NewAPI: %v", err)
	for gvk, res := range served {
		// by group, version and kind
		g, v := gvk.Group, gvk.Version
		got, err := reconciler.NewResource(mgr, "op", opv1a1.Resource{Group: &g, Version: &v, Kind: gvk.Kind}).GetGVK()
		k.Check(err == nil && got == gvk, "the reference %s resolves to %s, %v", gvk, got, err)
		// the composite REST mapper
		mk, err := api.RESTMapper.KindFor(schema.GroupVersionResource{Group: g, Version: v, Resource: res.Name})
		k.Check(err == nil && mk == gvk, "the kind of %s %s/%s is %s, %v", res.Name, g, v, mk, err)
		mp, err := api.RESTMapper.RESTMapping(gvk.GroupKind(), v)
		k.Check(err == nil && mp.Resource.Resource == res.Name && (mp.Scope.Name() == "namespace") == res.Namespaced, "the mapping of %s is %v, %v", gvk, mp, err)
		k.Eval(3)
		// by group and kind
		if checked[gvk.GroupKind()] {
			continue
		}
		checked[gvk.GroupKind()] = true
		want := gvk
		for _, ag := range gs { // the most preferred version that has the kind
			if ag.Name != g {
				continue
			}
			for i := len(ag.Versions) - 1; i >= 0; i-- {
				if _, ok := served[schema.GroupVersionKind{Group: g, Version: ag.Versions[i].Version, Kind: gvk.Kind}]; ok {
					want.Version = ag.Versions[i].Version
				}
			}
			if _, ok := served[schema.GroupVersionKind{Group: g, Version: ag.PreferredVersion.Version, Kind: gvk.Kind}]; ok {
				want.Version = ag.PreferredVersion.Version
			}
		}
		got, err = reconciler.NewResource(mgr, "op", opv1a1.Resource{Group: &g, Kind: gvk.Kind}).GetGVK()
		k.Check(err == nil && got == want, "the reference %s without a version resolves to %s (%v) instead of %s", gvk.GroupKind(), got, err, want)
		k.Eval(1)
		k.Nontrivial("native %s", gvk.GroupKind())
	}
	k.Count("native_kinds", len(served))
	k.Check(len(checked) > 30, "only %d native kinds", len(checked))
	// unknown kinds
	g := "no.such.group"
	_, err = reconciler.NewResource(mgr, "op", opv1a1.Resource{Group: &g, Kind: "None"}).GetGVK()
	k.Check(err != nil, "an unknown kind resolves")
}
