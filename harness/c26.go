package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"maps"
	"math/rand"
	"net/http"
	"strings"
	"time"

	"github.com/go-logr/logr"
	corev1 "k8s.io/api/core/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/object"
)

// C26: Secret payloads are decoded exactly once and never leak back.

func init() {
	checks["C26"] = func(c *Ctx) {
		c.Rule("evaluations = payload entries of Secrets (and data of look-alike objects) compared, at quiescent points, with what pipelines had seen of them; stored Secrets and their informer copies compared with what was written; calls of the decoder compared with an independent base64 decoder")
		c.Rule("distinct_nontrivial = distinct (kind of payload, number of base64 layers, retried or not, operation) tuples")
		c.Assume("payloads that are not valid UTF-8 reach pipelines as the raw bytes")
		c.Section("decoder", c.N(20000, 400000), 8, c26decoder)
		slots := 4
		c.withNative(slots, func(e *natEnv) {
			for s := 0; s < slots; s++ {
				_ = e.cl.Create(context.Background(), &corev1.Namespace{ObjectMeta: metav1.ObjectMeta{Name: fmt.Sprintf("sec%d", s)}})
			}
			free := make(chan int, slots)
			for s := 0; s < slots; s++ {
				free <- s
			}
			c.SectionT("operators", c.N(24, 300), slots, 300*time.Second, func(k *K) {
				slot := <-free
				defer func() { free <- slot }()
				c26run(k, e, slot)
			})
		})
	}
}

// c26payload makes a payload and tells its shape. The plain text often looks encoded.
func c26payload(r *rand.Rand) ([]byte, string) {
	var p []byte
	shape := ""
	switch r.Intn(8) {
	case 0:
		shape = "empty"
	case 1:
		p, shape = []byte(pick(r, "admin", "s3cr3t", "a b c", "x=y", "ünïcödé", "line1\nline2\n", `{"key":"value"}`, "true", "1234", "null")), "text"
	case 2:
		p, shape = []byte(pick(r, "abcd", "YWRtaW4=", "test", "12345678", "AAAA", "Zm9v", "user", "pass", "a+b/", "////")), "text that is base64"
	case 3:
		p = make([]byte, 1+r.Intn(20))
		r.Read(p)
		shape = "binary"
	default:
		p, shape = []byte(fmt.Sprintf("v%d", r.Intn(1000))), "number"
	}
	layers := 0
	for r.Intn(3) == 0 && layers < 3 {
		p = []byte(base64.StdEncoding.EncodeToString(p))
		layers++
	}
	return p, fmt.Sprintf("%s/%d", shape, layers)
}

func c26decoder(k *K) {
	r := k.R
	o := object.New()
	kind := pick(r, "Secret", "Secret", "Secret", "ConfigMap", "SecretList", "secret", "Secrets", "MySecret")
	o.SetGroupVersionKind(schema.GroupVersionKind{Version: "v1", Kind: kind})
	object.SetName(o, "n", "x")
	if r.Intn(2) == 0 {
		o.SetLabels(map[string]string{"app": "x"})
		o.SetAnnotations(map[string]string{"data": "YWJj"})
		o.Object["type"] = pick(r, "Opaque", "kubernetes.io/tls", "helm.sh/release.v1")
	}
	data, want := map[string]any{}, map[string]any{}
	for i := r.Intn(5); i > 0; i-- {
		key := pick(r, "a", "b", "data", "user.name", "tls.crt")
		p, shape := c26payload(r)
		switch r.Intn(6) {
		case 0: // not base64
			bad := pick(r, "a", "abc", "not base64!", "====", "YWJj=", " YWJj", "YW_j", "YWI", "ünï")
			if _, err := base64.StdEncoding.DecodeString(bad); err == nil {
				k.Fail("%q is base64", bad)
			}
			data[key], want[key] = bad, bad
			shape = "malformed"
		case 1: // not a string
			v := pick[any](r, int64(1), true, nil, []any{"YWJj"}, map[string]any{"x": "YWJj"}, 1.5)
			data[key], want[key] = v, v
			shape = "other"
		default:
			data[key], want[key] = base64.StdEncoding.EncodeToString(p), string(p)
		}
		k.Nontrivial("decode %s %s %s", kind, key, shape)
	}
	switch r.Intn(8) {
	case 0: // no data
	case 1:
		o.Object["data"] = pick[any](r, nil, "YWJj", []any{"YWJj"}, int64(1))
	default:
		o.Object["data"] = data
	}
	o.Object["stringData"] = map[string]any{"a": "YWJj"}
	o.Object["other"] = map[string]any{"data": map[string]any{"a": "YWJj"}}
	w := object.DeepCopy(o)
	if _, ok := w.Object["data"].(map[string]any); ok && kind == "Secret" {
		w.Object["data"] = want
	}
	var got object.Object
	k.Protect("DecodeSecretData", func() { got = object.DecodeSecretData(o) })
	k.Check(c26js(got.UnstructuredContent()) == c26js(w.UnstructuredContent()), "the decoder returns %s instead of %s", c26js(got.UnstructuredContent()), c26js(w.UnstructuredContent()))
	k.Check(object.DecodeSecretData(nil) == nil, "the decoder returns an object for nil")
	k.Eval(1)
}

// c26js shows binary strings as they are.
func c26js(v any) string {
	switch x := v.(type) {
	case map[string]any:
		var b strings.Builder
		for _, k := range sortedKeys(x) {
			fmt.Fprintf(&b, "%q:%s,", k, c26js(x[k]))
		}
		return "{" + b.String() + "}"
	case []any:
		s := "["
		for _, e := range x {
			s += c26js(e) + ","
		}
		return s + "]"
	case string:
		return fmt.Sprintf("%q", x)
	}
	return js(v)
}

func c26strs(v any) map[string]string {
	m, _ := v.(map[string]any)
	out := map[string]string{}
	for k, x := range m {
		s, ok := x.(string)
		if !ok {
			s = fmt.Sprintf("(%T)%v", x, x)
		}
		out[k] = s
	}
	return out
}

func c26run(k *K, e *natEnv, slot int) {
	r := k.R
	ctx := context.Background()
	ns := fmt.Sprintf("sec%d", slot)
	crd := schema.GroupVersionKind{Group: natGVK(slot, "X").Group, Version: "v1", Kind: "Secret"}
	clear := func() {
		_ = e.cl.DeleteAllOf(ctx, &corev1.Secret{}, client.InNamespace(ns))
		_ = e.cl.DeleteAllOf(ctx, &corev1.ConfigMap{}, client.InNamespace(ns))
		o := &unstructured.Unstructured{}
		o.SetGroupVersionKind(crd)
		_ = e.cl.DeleteAllOf(ctx, o, client.InNamespace(ns))
	}
	clear()
	defer clear()
	f := &faults{r: rand.New(rand.NewSource(r.Int63())), match: func(q *http.Request) bool {
		return strings.Contains(q.URL.Path, "/"+ns+"/") || q.Method == http.MethodGet
	}}
	log := logr.Discard()
	if r.Intn(3) == 0 {
		log = jitterLog(r.Int63(), uint64(20+r.Intn(200)))
	}
	w := newWorldOn(k, log, e, f.config(e.cfg), slot)
	defer w.close()

	proj := func(extra m) []any {
		p := m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "data": "$.data"}
		maps.Copy(p, extra)
		return []any{m{"@project": p}}
	}
	sel := []any{m{"@select": m{"@eq": []any{"$.metadata.namespace", ns}}}}
	native := func(kind string) m {
		return m{"apiGroup": "", "version": "v1", "kind": kind, "namespace": ns}
	}
	gate := r.Intn(2) == 0
	var ctrls []any
	add := func(name string, src []any, target m, p []any) {
		ctrls = append(ctrls, m{"name": name, "sources": src, "target": target, "pipeline": p})
	}
	add("out", []any{native("Secret")}, m{"kind": "Out"}, append(append([]any{}, sel...), proj(m{"type": "$.type"})...))
	// the payload takes the way through a view that is also called Secret
	add("view", []any{native("Secret")}, m{"kind": "Secret"}, proj(nil))
	add("chain", []any{m{"kind": "Secret"}}, m{"kind": "Chain"}, proj(nil))
	add("configmap", []any{native("ConfigMap")}, m{"kind": "Cm"}, proj(m{"binaryData": "$.binaryData"}))
	add("crd", []any{m{"apiGroup": crd.Group, "version": "v1", "kind": "Secret"}}, m{"kind": "Crd"}, proj(nil))
	// the controller writes back into the Secret it has seen
	patched := r.Intn(2) == 0
	if patched {
		add("patch", []any{native("Secret")}, m{"apiGroup": "", "version": "v1", "kind": "Secret", "type": "Patcher"},
			[]any{m{"@project": m{"metadata": m{"name": "$.metadata.name", "namespace": "$.metadata.namespace", "annotations": m{"seen": "yes"}}}}})
	}
	// evaluation fails until the gate opens
	if gate {
		add("gated", []any{native("Secret"), m{"kind": "Gate"}}, m{"kind": "Gated"},
			[]any{m{"@join": m{"@eq": []any{m{"@int": "$.Gate.n"}, 1}}}, m{"@project": m{"metadata": "$.Secret.metadata", "data": "$.Secret.data"}}})
	}
	// periodic state-of-the-world reconciliation
	periodic := r.Intn(3) == 0
	if periodic {
		add("periodic", []any{native("Secret"), m{"kind": "Tick", "type": "Periodic", "parameters": m{"period": "20ms"}}}, m{"kind": "Per"}, proj(nil))
	}
	r.Shuffle(len(ctrls), func(i, j int) { ctrls[i], ctrls[j] = ctrls[j], ctrls[i] })
	b, _ := json.Marshal(m{"controllers": ctrls})
	spec := opv1a1.OperatorSpec{}
	k.Check(json.Unmarshal(b, &spec) == nil, "spec %s", b)
	var cs []*ctrlSpec
	for _, c := range spec.Controllers {
		cs = append(cs, &ctrlSpec{name: c.Name, op: "sec", conf: c})
	}
	op := w.create("sec", cs)
	w.ops = append(w.ops, op)

	secrets, cms, crds := map[string]map[string][]byte{}, map[string]map[string]string{}, map[string]map[string]string{}
	write := func() {
		name := fmt.Sprintf("s%d", r.Intn(4))
		data := map[string][]byte{}
		text := map[string]string{}
		shape := ""
		for i := r.Intn(4); i >= 0; i-- {
			p, s := c26payload(r)
			key := pick(r, "a", "b", "c", "user.name")
			data[key] = p
			text[key] = strings.ToValidUTF8(string(p), "?")
			shape += s + " "
		}
		del := r.Intn(6) == 0
		var o client.Object
		what := ""
		switch r.Intn(4) {
		case 0:
			what = "ConfigMap"
			o = &corev1.ConfigMap{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Data: text}
			if del {
				delete(cms, name)
			} else {
				cms[name] = text
			}
		case 1:
			what = "CRD"
			u := &unstructured.Unstructured{Object: map[string]any{}}
			u.SetGroupVersionKind(crd)
			u.SetNamespace(ns)
			u.SetName(name)
			d := map[string]any{}
			for k, v := range text {
				d[k] = v
			}
			u.Object["data"] = d
			o = u
			if del {
				delete(crds, name)
			} else {
				crds[name] = text
			}
		default:
			what = "Secret"
			sec := &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Data: data, Type: map[string]corev1.SecretType{"s1": "l7mp.io/x"}[name]}
			if r.Intn(2) == 0 {
				sec.Labels = map[string]string{"app": pick(r, "x", "y")}
			}
			if r.Intn(3) == 0 {
				sec.OwnerReferences = []metav1.OwnerReference{{APIVersion: "v1", Kind: "Pod", Name: "p", UID: "1"}}
			}
			o = sec
			if del {
				delete(secrets, name)
			} else {
				secrets[name] = data
			}
		}
		k.Log("%s %s delete=%v %s", what, name, del, shape)
		var err error
		if del {
			err = client.IgnoreNotFound(e.cl.Delete(ctx, o))
		} else if err = e.cl.Create(ctx, o.DeepCopyObject().(client.Object)); apierrors.IsAlreadyExists(err) {
			for try := 0; try < 20; try++ { // others annotate the object
				cur := o.DeepCopyObject().(client.Object)
				old := o.DeepCopyObject().(client.Object)
				if err = e.cl.Get(ctx, client.ObjectKeyFromObject(o), old); err != nil {
					break
				}
				cur.SetAnnotations(old.GetAnnotations())
				cur.SetResourceVersion(old.GetResourceVersion())
				if err = e.cl.Update(ctx, cur); !apierrors.IsConflict(err) {
					break
				}
			}
		}
		k.Check(err == nil, "writing %s %s: %v", what, name, err)
		k.Count("writes_"+what, 1)
		k.Nontrivial("%s %v %s gate=%v patch=%v", what, del, shape, gate, patched)
	}
	vcl := w.shared.GetClient()
	setGate := func(n any) {
		g := object.NewViewObject("sec", "Gate")
		object.SetName(g, "gates", "gate")
		g.Object["n"] = n
		k.Check(vcl.Create(ctx, g) == nil, "gate")
	}
	if gate {
		setGate("closed")
	}
	for i := 0; i < 4; i++ {
		write()
	}
	w.start(op)
	rate := int64(pick(r, 0, 10, 30))
	for round := 0; round < 3; round++ {
		f.rate.Store(rate)
		if gate && r.Intn(2) == 0 {
			setGate("closed")
		}
		for i := 0; i < 12; i++ {
			write()
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
			}
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
		}
		f.rate.Store(0)
		if gate {
			setGate(int64(1))
		}

		// quiescence
		plain := map[string]map[string]string{}
		for n, d := range secrets {
			plain[n] = map[string]string{}
			for key, v := range d {
				plain[n][key] = string(v)
			}
		}
		views := map[string]map[string]map[string]string{"Out": plain, "Secret": plain, "Chain": plain, "Cm": cms, "Crd": crds}
		if gate {
			views["Gated"] = plain
		}
		if periodic {
			views["Per"] = plain
		}
		deadline := time.Now().Add(60 * time.Second)
		for {
			bad := ""
			for kind, want := range views {
				got := map[string]map[string]string{}
				for _, o := range storeList(k, w.shared, opGVK("sec", kind)) {
					got[o.GetName()] = c26strs(o.UnstructuredContent()["data"])
				}
				for n := range want {
					if !maps.Equal(got[n], want[n]) {
						bad = fmt.Sprintf("view %s of %s must be %q, is %q", kind, n, want[n], got[n])
					}
				}
				if len(got) != len(want) && bad == "" {
					bad = fmt.Sprintf("view %s holds %v instead of %v", kind, sortedKeys(got), sortedKeys(want))
				}
			}
			for n, d := range secrets { // what is stored
				s := &corev1.Secret{}
				if err := e.cl.Get(ctx, client.ObjectKey{Namespace: ns, Name: n}, s); err != nil {
					k.Fail("the Secret %s: %v", n, err)
				}
				if len(s.Data) != len(d) {
					k.Fail("the Secret %s has been changed: %q instead of %q", n, s.Data, d)
				}
				for key, v := range d {
					if !bytes.Equal(s.Data[key], v) {
						k.Fail("the Secret %s has been changed: %s is %q instead of %q", n, key, s.Data[key], v)
					}
				}
				if patched && s.Annotations["seen"] != "yes" && bad == "" {
					bad = fmt.Sprintf("the Secret %s has not been annotated", n)
				}
				// the informer's copy
				u := &unstructured.Unstructured{}
				u.SetGroupVersionKind(schema.GroupVersionKind{Version: "v1", Kind: "Secret"})
				if err := w.api.Cache.Get(ctx, client.ObjectKey{Namespace: ns, Name: n}, u); err == nil && u.GetResourceVersion() == s.ResourceVersion {
					cached := c26strs(u.Object["data"])
					for key, v := range d {
						if cached[key] != base64.StdEncoding.EncodeToString(v) {
							k.Fail("the informer's copy of the Secret %s has been changed: %s is %q, stored: %q", n, key, cached[key], v)
						}
					}
					k.Count("informer_copies", 1)
				}
			}
			if bad == "" {
				break
			}
			if time.Now().After(deadline) {
				last, _ := op.last.Load().(string)
				k.Fail("%s (60 s after the last write; last error: %s)", bad, last)
			}
			time.Sleep(5 * time.Millisecond)
		}
		for kind, v := range views {
			for _, d := range v {
				k.Eval(len(d))
				k.Count("entries_"+kind, len(d))
			}
		}
	}
	k.Count("injected_faults", int(f.count.Load()))
	k.Count("controller_errors", int(op.nerr.Load()))
}
