package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	corev1 "k8s.io/api/core/v1"
	apiextv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/envtest"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
)

// A real Kubernetes API server (etcd and kube-apiserver, as in the repository's own tests).

const envBin = "/opt/vp/envtest/bin"

type natEnv struct {
	env *envtest.Environment
	cfg *rest.Config  // without faults
	cl  client.Client // without faults
}

// natKinds are served in the groups w0.example.com, w1.example.com, ..., one per worker.
var natKinds = []string{"Alpha", "Beta", "Gamma", "T0", "T1", "T2", "T3"}

func natGVK(slot int, kind string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: fmt.Sprintf("w%d.example.com", slot), Version: "v1", Kind: kind}
}

// startNative starts the API server with the given number of slots.
func (c *Ctx) startNative(slots int) (*natEnv, error) {
	if _, err := os.Stat(filepath.Join(envBin, "kube-apiserver")); err != nil {
		return nil, err
	}
	scheme := runtime.NewScheme()
	_ = clientgoscheme.AddToScheme(scheme)
	_ = opv1a1.AddToScheme(scheme)
	yes := true
	var crds []*apiextv1.CustomResourceDefinition
	for s := 0; s < slots; s++ {
		for _, kd := range append([]string{"Secret"}, natKinds...) {
			pl := strings.ToLower(kd) + "s"
			g := natGVK(s, kd).Group
			v := apiextv1.CustomResourceDefinitionVersion{Name: "v1", Served: true, Storage: true,
				Schema: &apiextv1.CustomResourceValidation{OpenAPIV3Schema: &apiextv1.JSONSchemaProps{Type: "object", XPreserveUnknownFields: &yes}}}
			if strings.HasPrefix(kd, "T") && kd != "T0" {
				v.Subresources = &apiextv1.CustomResourceSubresources{Status: &apiextv1.CustomResourceSubresourceStatus{}}
			}
			crds = append(crds, &apiextv1.CustomResourceDefinition{ObjectMeta: metav1.ObjectMeta{Name: pl + "." + g},
				Spec: apiextv1.CustomResourceDefinitionSpec{Group: g, Scope: apiextv1.NamespaceScoped,
					Names:    apiextv1.CustomResourceDefinitionNames{Plural: pl, Singular: strings.ToLower(kd), Kind: kd, ListKind: kd + "List"},
					Versions: []apiextv1.CustomResourceDefinitionVersion{v}}})
		}
	}
	e := &natEnv{env: &envtest.Environment{BinaryAssetsDirectory: envBin,
		CRDDirectoryPaths: []string{"/repo/config/crd/resources/dcontroller.io_operators.yaml"}, CRDs: crds, ErrorIfCRDPathMissing: true}}
	var err error
	for try := 0; try < 3; try++ {
		if e.cfg, err = e.env.Start(); err == nil {
			break
		}
		e.env.Stop() //nolint:errcheck
	}
	if err != nil {
		return nil, err
	}
	e.cfg.QPS, e.cfg.Burst = 2000, 2000
	if e.cl, err = client.New(e.cfg, client.Options{Scheme: scheme}); err != nil {
		return nil, err
	}
	for _, ns := range []string{"other", "fixed", "grp"} {
		if err := e.cl.Create(context.Background(), &corev1.Namespace{ObjectMeta: metav1.ObjectMeta{Name: ns}}); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func (e *natEnv) stop() { e.env.Stop() } //nolint:errcheck

// withNative runs the sections that need the API server; without one they are inconclusive.
func (c *Ctx) withNative(slots int, fn func(e *natEnv)) {
	e, err := c.startNative(slots)
	if err != nil {
		c.Inconclusive("the API server cannot be started: %v", err)
		fmt.Fprintf(os.Stderr, "[%s] no API server: %v\n", c.Prop, err)
		return
	}
	defer e.stop()
	fn(e)
}

// clear removes all objects of a slot.
func (e *natEnv) clear(k *K, slot int) {
	for _, kd := range append([]string{"Secret"}, natKinds...) {
		o := &unstructured.Unstructured{}
		o.SetGroupVersionKind(natGVK(slot, kd))
		for _, ns := range []string{"default", "other", "fixed", "grp"} {
			if err := e.cl.DeleteAllOf(context.Background(), o, client.InNamespace(ns)); err != nil {
				k.Check(apierrors.IsNotFound(err), "cleanup: %v", err)
			}
		}
	}
}

// faults injects failures into the requests of the code under test.
type faults struct {
	mu    sync.Mutex
	r     *rand.Rand
	rate  atomic.Int64 // percent of the modifying requests
	count atomic.Int64
	match func(*http.Request) bool
}

func (f *faults) config(cfg *rest.Config) *rest.Config {
	c := rest.CopyConfig(cfg)
	c.WrapTransport = func(rt http.RoundTripper) http.RoundTripper { return faultRT{f, rt} }
	return c
}

type faultRT struct {
	f  *faults
	rt http.RoundTripper
}

func (t faultRT) roll(n int) int {
	t.f.mu.Lock()
	defer t.f.mu.Unlock()
	return t.f.r.Intn(n)
}

func statusReply(req *http.Request, code int, reason metav1.StatusReason) *http.Response {
	b := js(metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Code: int32(code), Reason: reason, Message: "injected failure"})
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(bytes.NewReader([]byte(b))), ContentLength: int64(len(b))}
}

type cutBody struct {
	io.ReadCloser
	n *atomic.Int64
}

func (c cutBody) Read(p []byte) (int, error) {
	if c.n.Add(-1) < 0 {
		return 0, io.ErrUnexpectedEOF
	}
	return c.ReadCloser.Read(p)
}

func (t faultRT) RoundTrip(req *http.Request) (*http.Response, error) {
	rate := int(t.f.rate.Load())
	if rate == 0 || (t.f.match != nil && !t.f.match(req)) {
		return t.rt.RoundTrip(req)
	}
	if req.Method == http.MethodGet {
		resp, err := t.rt.RoundTrip(req)
		if err == nil && req.URL.Query().Get("watch") != "" && t.roll(100) < rate {
			n := &atomic.Int64{}
			n.Store(int64(t.roll(12)))
			resp.Body = cutBody{resp.Body, n}
			t.f.count.Add(1)
		}
		return resp, err
	}
	if t.roll(100) >= rate {
		return t.rt.RoundTrip(req)
	}
	t.f.count.Add(1)
	switch t.roll(5) {
	case 0:
		return statusReply(req, 409, metav1.StatusReasonConflict), nil
	case 1:
		return statusReply(req, 500, metav1.StatusReasonInternalError), nil
	case 2:
		return nil, errors.New("injected: connection refused")
	case 3: // the request is executed but the reply is lost
		resp, err := t.rt.RoundTrip(req)
		if err == nil {
			resp.Body.Close()
		}
		return nil, errors.New("injected: connection reset by peer")
	default:
		time.Sleep(time.Duration(t.roll(5)) * time.Millisecond)
		return t.rt.RoundTrip(req)
	}
}
