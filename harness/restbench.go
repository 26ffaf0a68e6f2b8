package main

import (
	"bytes"
	"context"
	"crypto/rsa"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/auth"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

// A running extension API server over a view store.

var keyOnce = sync.OnceValue(func() (ks struct {
	dir       string
	cert, key []byte
	priv      *rsa.PrivateKey
	pub       *rsa.PublicKey
	other     *rsa.PrivateKey
}) {
	dir, err := os.MkdirTemp("", "vkeys")
	if err != nil {
		panic(err)
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	ks.dir = dir
	ks.cert, ks.key, err = auth.GenerateSelfSignedCertWithSANs([]string{"localhost", "127.0.0.1"})
	must(err)
	must(auth.WriteCertAndKey(filepath.Join(dir, "s.crt"), filepath.Join(dir, "s.key"), ks.cert, ks.key))
	ks.priv, err = auth.LoadPrivateKey(filepath.Join(dir, "s.key"))
	must(err)
	ks.pub, err = auth.LoadPublicKey(filepath.Join(dir, "s.crt"))
	must(err)
	_, k2, err := auth.GenerateSelfSignedCert("localhost")
	must(err)
	ks.other, err = auth.ParsePrivateKey(k2)
	must(err)
	return ks
})

// dropKeys removes the key files.
func dropKeys() { os.RemoveAll(keyOnce().dir) }

type restServer struct {
	api    *cache.API
	vc     *cache.ViewCache
	cl     client.Client // the store's own client
	srv    *apiserver.APIServer
	base   string
	hc     *http.Client
	cancel context.CancelFunc
	done   chan error
	accept string // instead of JSON
}

// newREST starts a server; mode is "http", "http-auth" or "https".
func newREST(mode string, log logr.Logger) (*restServer, error) {
	api, err := cache.NewAPI(nil, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: log}, Logger: log})
	if err != nil {
		return nil, err
	}
	return newRESTOn(api, mode, log)
}

func newRESTOn(api *cache.API, mode string, log logr.Logger) (*restServer, error) {
	s := &restServer{api: api, vc: api.GetCache().GetViewCache().(*cache.ViewCache), done: make(chan error, 1)}
	s.cl = s.vc.GetClient()
	var err error
	for try := 0; try < 20; try++ { // the server picks random ports
		var cfg apiserver.Config
		port := 0
		if mode == "https" {
			port = freePort()
		}
		cfg, err = apiserver.NewDefaultConfig("127.0.0.1", port, api.Client, mode != "https", mode == "https", log)
		if err != nil {
			return nil, err
		}
		if mode != "http" {
			cfg.Authenticator = auth.NewJWTAuthenticator(keyOnce().pub)
			cfg.Authorizer = auth.NewCompositeAuthorizer()
		}
		if mode == "https" {
			cfg.CertFile, cfg.KeyFile = filepath.Join(keyOnce().dir, "s.crt"), filepath.Join(keyOnce().dir, "s.key")
		}
		if s.srv, err = apiserver.NewAPIServer(cfg); err == nil {
			break
		}
	}
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	go func() { s.done <- s.srv.Start(ctx) }()
	addr := s.srv.GetInsecureServerAddress()
	s.base = "http://" + addr
	if mode == "https" {
		addr = s.srv.GetServerAddress()
		s.base = "https://" + addr
	}
	s.hc = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, MaxIdleConnsPerHost: 64}}
	for i := 0; i < 400; i++ {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			if resp, err := s.hc.Get(s.base + "/apis"); err == nil {
				resp.Body.Close()
				return s, nil
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	s.stop()
	return nil, fmt.Errorf("the API server does not answer")
}

func (s *restServer) stop() {
	s.hc.CloseIdleConnections()
	s.cancel()
	select {
	case <-s.done:
	case <-time.After(20 * time.Second):
	}
}

// reply is an HTTP reply.
type reply struct {
	Code int
	Body []byte
	Obj  map[string]any
	Err  error
}

func (r reply) String() string {
	b := string(r.Body)
	if len(b) > 600 {
		b = b[:600] + "..."
	}
	return fmt.Sprintf("%d %s %v", r.Code, b, r.Err)
}

func (r reply) reason() string { s, _ := r.Obj["reason"].(string); return s }

// do sends a request; the body of a streaming reply is read until the deadline.
func (s *restServer) do(method, path, token, ctype string, body any, limit time.Duration) reply {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	var rd io.Reader
	switch b := body.(type) {
	case nil:
	case []byte:
		rd = bytes.NewReader(b)
	case string:
		rd = strings.NewReader(b)
	default:
		j, err := json.Marshal(b)
		if err != nil {
			return reply{Err: err}
		}
		rd = bytes.NewReader(j)
	}
	req, err := http.NewRequestWithContext(ctx, method, s.base+path, rd)
	if err != nil {
		return reply{Err: err}
	}
	if token != "" {
		req.Header.Set("Authorization", token)
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	req.Header.Set("Accept", "application/json")
	if s.accept != "" {
		req.Header.Set("Accept", s.accept)
	}
	resp, err := s.hc.Do(req)
	if err != nil {
		return reply{Err: err}
	}
	defer resp.Body.Close()
	b, rerr := io.ReadAll(resp.Body)
	r := reply{Code: resp.StatusCode, Body: b}
	if rerr != nil && ctx.Err() == nil {
		r.Err = rerr
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	d.Decode(&r.Obj) //nolint:errcheck
	return r
}

func restPath(gvk schema.GroupVersionKind, ns, name string) string {
	p := "/apis/" + gvk.Group + "/" + gvk.Version
	if ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/" + strings.ToLower(gvk.Kind)
	if name != "" {
		p += "/" + name
	}
	return p
}

func robj(g schema.GroupVersionKind, ns, name string, content map[string]any) object.Object {
	o := vobjKey(g, ns+"/"+name)
	for k, v := range content {
		o.Object[k] = v
	}
	return o
}

// storeList reads the view store directly.
func storeList(k *K, vc *cache.ViewCache, g schema.GroupVersionKind) []object.Object {
	l := &unstructured.UnstructuredList{}
	l.SetGroupVersionKind(schema.GroupVersionKind{Group: g.Group, Version: g.Version, Kind: g.Kind + "List"})
	k.Check(vc.List(context.Background(), l) == nil, "listing the view store fails")
	var out []object.Object
	for i := range l.Items {
		out = append(out, &l.Items[i])
	}
	return out
}

// storeState is the content of the view store by group|kind|namespace|name.
func storeState(k *K, vc *cache.ViewCache, gvks []schema.GroupVersionKind) map[string]string {
	out := map[string]string{}
	for _, g := range gvks {
		for _, o := range storeList(k, vc, g) {
			out[strings.Join([]string{g.Group, g.Kind, o.GetNamespace(), o.GetName()}, "|")] = js(restBare(o.UnstructuredContent()))
		}
	}
	return out
}

// diffState tells what changed, by key.
func diffState(a, b map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out[k] = "deleted"
		} else if w != v {
			out[k] = v + " -> " + w
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			out[k] = "created " + w
		}
	}
	return out
}

// restBare removes what the store and the API machinery maintain.
func restBare(o map[string]any) map[string]any {
	o = copyMap(o)
	if md, ok := isObj(o["metadata"]); ok {
		for _, f := range []string{"uid", "resourceVersion", "creationTimestamp", "generation", "managedFields"} {
			delete(md, f)
		}
	}
	return o
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}
