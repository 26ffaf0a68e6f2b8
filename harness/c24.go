package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"

	rbacv1 "k8s.io/api/rbac/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apiserver/pkg/authorization/authorizer"
	"k8s.io/client-go/tools/clientcmd"
	clientcmdapi "k8s.io/client-go/tools/clientcmd/api"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/auth"
)

// C24: generated credentials carry exactly the requested authority.

func init() {
	checks["C24"] = func(c *Ctx) {
		defer dropKeys()
		c.Rule("evaluations = runs of the dctl binary whose files, output and tokens were compared with the command line; authorization decisions for the generated users; requests to a server started by dctl")
		c.Rule("distinct_nontrivial = distinct command lines")
		c.Assume("the kubeconfig contains no CA certificate, so a self-signed server needs --insecure; an explicitly empty rule list means full access; --rules-file takes precedence over --rules")
		c.SectionT("generate-keys", c.N(24, 300), 8, 60*time.Second, c24keys)
		c.SectionT("generate-config", c.N(400, 8000), 8, 60*time.Second, c24config)
		c.SectionT("get-config", c.N(120, 3000), 8, 60*time.Second, c24get)
		c.withNative(1, func(e *natEnv) {
			c.SectionT("start", 1, 1, 200*time.Second, func(k *K) { c24start(k, e) })
		})
	}
}

type cliOut struct {
	Out, Err string
	Code     int
}

// dctl runs the CLI in a directory.
func (k *K) dctl(dir string, env []string, args ...string) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(k.Dir, ".build", "dctl"), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		k.Fail("dctl %q: %v", args, err)
	}
	r := cliOut{o.String(), e.String(), cmd.ProcessState.ExitCode()}
	k.Eval(1)
	k.Count("cli_runs", 1)
	if strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "goroutine ") || r.Code < 0 || r.Code == 2 {
		k.Fail("dctl %q crashes: %s", args, r.Err)
	}
	return r
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "vcli")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func c24keys(k *K) {
	r := k.R
	dir, done := scratch()
	defer done()
	var args, hosts []string
	for i := 0; i < r.Intn(4); i++ {
		h := pick(r, "localhost", "127.0.0.1", "api.example.com", "::1", "10.1.2.3")
		hosts = append(hosts, h)
		args = append(args, "--hostname="+h)
	}
	if len(hosts) > 1 && r.Intn(3) == 0 {
		args = []string{"--hostname=" + strings.Join(hosts, ",")}
	}
	if len(hosts) == 0 {
		hosts = []string{"localhost"}
	}
	kf, cf := "apiserver.key", "apiserver.crt"
	if r.Intn(2) == 0 {
		kf = pick(r, "a.pem", "sub/k.key", "z.key")
		args = append(args, "--tls-key-file="+kf)
	}
	if r.Intn(2) == 0 {
		cf = pick(r, "b.pem", "sub/c.crt", "a.crt")
		args = append(args, "--tls-cert-file="+cf)
	}
	os.Mkdir(filepath.Join(dir, "sub"), 0o755) //nolint:errcheck
	for _, f := range []string{kf, cf} {       // files left from earlier
		if r.Intn(3) == 0 {
			p := filepath.Join(dir, f)
			k.Check(os.WriteFile(p, []byte(strings.Repeat("old\n", r.Intn(3000))), 0o600) == nil, "scratch file")
			k.Check(os.Chmod(p, pick(r, os.FileMode(0o644), 0o600, 0o666)) == nil, "scratch file")
		}
	}
	o := k.dctl(dir, nil, append([]string{"generate-keys"}, args...)...)
	k.Check(o.Code == 0, "generate-keys %q fails: %s", args, o.Err)
	k.Nontrivial("keys %q", args)
	kp, cp := filepath.Join(dir, kf), filepath.Join(dir, cf)
	st, err := os.Stat(kp)
	k.Check(err == nil, "no key file: %v", err)
	if st.Mode().Perm()&0o77 != 0 {
		k.Fail("generate-keys %q: the private key file has mode %v", args, st.Mode())
	}
	kb, _ := os.ReadFile(kp)
	cb, err := os.ReadFile(cp)
	k.Check(err == nil, "no certificate file: %v", err)
	if strings.Contains(string(cb), "PRIVATE KEY") {
		k.Fail("generate-keys %q: the certificate file contains the private key", args)
	}
	if kblk, rest := pem.Decode(kb); kblk == nil || len(rest) > 0 {
		k.Fail("generate-keys %q: the key file contains something else: %q", args, rest)
	}
	if _, err := tls.X509KeyPair(cb, kb); err != nil {
		k.Fail("generate-keys %q: the files are not a key pair: %v", args, err)
	}
	blk, rest := pem.Decode(cb)
	x, err := x509.ParseCertificate(blk.Bytes)
	k.Check(err == nil && len(rest) == 0, "certificate: %v, %q", err, rest)
	for _, h := range hosts {
		k.Check(x.VerifyHostname(h) == nil, "generate-keys %q: the certificate is not valid for %s", args, h)
	}
	k.Check(len(x.DNSNames)+len(x.IPAddresses) == len(hosts), "generate-keys %q: the certificate is valid for %v %v", args, x.DNSNames, x.IPAddresses)
	for _, f := range []string{kf, cf, fmt.Sprint(hosts)} {
		k.Check(strings.Contains(o.Out, f), "generate-keys %q does not mention %s: %s", args, f, o.Out)
	}
	// configurations made with this key, and with no other, belong to this certificate
	o = k.dctl(dir, nil, "generate-config", "--user=u", "--tls-key-file="+kf, "--output=u.config")
	k.Check(o.Code == 0, "generate-config fails: %s", o.Err)
	o = k.dctl(dir, []string{"KUBECONFIG=u.config"}, "get-config", "--tls-cert-file="+cf)
	k.Check(o.Code == 0 && strings.Contains(o.Out, "VALID"), "get-config rejects the configuration of the generated key: %s", o.Err)
	o = k.dctl(dir, nil, "get-config", "--kubeconfig=u.config", "--tls-cert-file="+filepath.Join(keyOnce().dir, "s.crt"))
	k.Check(o.Code != 0 && !strings.Contains(o.Out, "is VALID"), "get-config accepts the configuration of another key: %s", o.Out)
}

// cliUser is what was asked for on a command line.
type cliUser struct {
	User    string
	U       auser
	Expiry  time.Duration
	Server  string
	NS      string
	Ins, HT bool
	Refuse  bool
}

func c24user(r *rand.Rand, dir string) (u cliUser, args []string) {
	u.User = pick(r, "alice", "bob", "admin", "dev ops", "é", "system:masters", "a=b", "0", "true", "x:y", "null")
	args = append(args, "--user="+u.User)
	u.Server, u.Expiry = "localhost:8443", 24*365*time.Hour
	sep := func(xs []string) string {
		s := ""
		for i, x := range xs {
			if i > 0 {
				s += pick(r, ",", ", ", " ,", ",,")
			}
			s += x
		}
		if r.Intn(6) == 0 {
			s += ","
		}
		return s
	}
	switch r.Intn(10) {
	case 0:
	case 1:
		args = append(args, "--namespaces="+pick(r, ",", " ", ", ,"))
		u.Refuse = true
	case 2:
		u.U.NS = []string{"*"}
		args = append(args, "--namespaces=*")
	default:
		for i := 0; i <= r.Intn(3); i++ {
			u.U.NS = append(u.U.NS, pick(r, azNS[:5]...))
		}
		args = append(args, "--namespaces="+sep(u.U.NS))
	}
	if r.Intn(5) > 0 {
		u.U.Rules = genRules(r, azGroups, azRes, azNames[:8])
		b := js(u.U.Rules)
		if r.Intn(3) == 0 {
			f := filepath.Join(dir, "rules.json")
			if err := os.WriteFile(f, []byte(b), 0o600); err != nil {
				panic(err)
			}
			args = append(args, "--rules-file="+pick(r, f, "rules.json"))
			if r.Intn(4) == 0 {
				args = append(args, `--rules=[{"verbs":["*"],"apiGroups":["*"],"resources":["*"]}]`)
			}
		} else {
			args = append(args, "--rules="+b)
		}
	} else if r.Intn(4) == 0 {
		u.Refuse = true
		if r.Intn(3) == 0 {
			args = append(args, "--rules-file=missing.json")
		} else {
			args = append(args, "--rules="+pick(r, "{", "[{]", `"x"`, `{"verbs":["get"]}`, `[{"verbs":"get"}]`, "x"))
		}
	}
	if r.Intn(3) == 0 {
		if r.Intn(6) == 0 {
			args = append(args, "--resource-names="+pick(r, ",", " "))
			u.Refuse = true
		} else {
			var ns []string
			for i := 0; i <= r.Intn(3); i++ {
				ns = append(ns, pick(r, azNames[:8]...))
			}
			args = append(args, "--resource-names="+sep(ns))
			if len(u.U.Rules) == 0 {
				u.Refuse = true
			} else {
				u.U.Rules[len(u.U.Rules)-1].ResourceNames = ns
			}
		}
	}
	if r.Intn(2) == 0 {
		u.Expiry = pick(r, time.Minute, time.Hour, 24*time.Hour, 90*time.Minute, 100000*time.Hour, -time.Hour)
		args = append(args, "--expiry="+u.Expiry.String())
	}
	if r.Intn(2) == 0 {
		u.Server = pick(r, "127.0.0.1:9443", "api.example.com:443", "[::1]:8443", "10.0.0.1:80")
		args = append(args, "--server-address="+u.Server)
	}
	if r.Intn(3) == 0 {
		u.NS = pick(r, azNS[:5]...)
		args = append(args, "--namespace="+u.NS)
	}
	if r.Intn(3) == 0 {
		u.Ins = true
		args = append(args, "--insecure")
	}
	if r.Intn(3) == 0 {
		u.HT = true
		args = append(args, "--http")
	}
	r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	return
}

func c24config(k *K) {
	r := k.R
	dir, done := scratch()
	defer done()
	u, args := c24user(r, dir)
	keys := keyOnce()
	full := append([]string{"generate-config", "--tls-key-file=" + filepath.Join(keys.dir, "s.key")}, args...)
	file := r.Intn(2) == 0
	out := filepath.Join(dir, "u.config")
	if file {
		full = append(full, "--output="+out)
	}
	before := time.Now().Add(-time.Second)
	o := k.dctl(dir, nil, full...)
	after := time.Now().Add(time.Second)
	k.Nontrivial("config %q", args)
	if u.Refuse {
		if o.Code == 0 {
			k.Fail("generate-config %q generates credentials although what is asked for makes no sense: %s", args, o.Out+o.Err)
		}
		k.Count("cli_refused", 1)
		return
	}
	k.Check(o.Code == 0, "generate-config %q fails: %s", args, o.Err)
	b := []byte(o.Out)
	if file {
		var err error
		b, err = os.ReadFile(out)
		k.Check(err == nil && o.Out == "", "generate-config %q: %v, output %q", args, err, o.Out)
		st, _ := os.Stat(out)
		k.Check(st.Mode().Perm()&0o77 == 0, "generate-config %q: the configuration has mode %v", args, st.Mode())
		k.Check(strings.Contains(o.Err, "User: "+u.User+"\n"), "generate-config %q does not print the user: %s", args, o.Err)
		k.printed(args, o.Err, u.U)
	} else {
		out = filepath.Join(dir, "stdout.config")
		k.Check(os.WriteFile(out, b, 0o600) == nil, "scratch file")
	}
	cfg, err := clientcmd.Load(b)
	k.Check(err == nil, "generate-config %q: %v", args, err)
	tok := k.kubeconfig(args, cfg, u)
	k.token(args, tok, u, before, after)
	if t, err := auth.ExtractTokenFromKubeconfig(out); err != nil || t != tok {
		k.Fail("generate-config %q: reading the token back yields %q (%v)", args, t, err)
	}
	// what the configuration confers
	resp, ok, err := auth.NewJWTAuthenticator(keys.pub).AuthenticateRequest(&http.Request{Header: http.Header{"Authorization": {"Bearer " + tok}}})
	if ok != (u.Expiry > 0) {
		k.Fail("generate-config %q: the configuration authenticates: %v (%v)", args, ok, err)
	}
	if ok {
		az := auth.NewCompositeAuthorizer()
		for i := 0; i < 30; i++ {
			q := areq{Verb: pick(r, azVerbs...), Group: pick(r, azGroups...), Resource: pick(r, azRes...), Name: pick(r, azNames...), NS: pick(r, azNS...)}
			d, _, err := az.Authorize(context.Background(), authorizer.AttributesRecord{User: resp.User, Verb: q.Verb, APIGroup: q.Group, Resource: q.Resource, Name: q.Name, Namespace: q.NS, ResourceRequest: true})
			if want := mayDo(u.U, q); err != nil || (d == authorizer.DecisionAllow) != want {
				k.Fail("generate-config %q: request %s is decided %v, want allow=%v", args, js(q), d, want)
			}
			k.Eval(1)
		}
	}
	// what is printed about it
	env := []string{}
	ga := []string{"get-config", "--tls-cert-file=" + filepath.Join(keys.dir, "s.crt")}
	if r.Intn(2) == 0 {
		env = append(env, "KUBECONFIG="+out)
	} else {
		ga = append(ga, "--kubeconfig="+out)
	}
	o = k.dctl(dir, env, ga...)
	if u.Expiry < 0 {
		k.Check(o.Code != 0 && !strings.Contains(o.Out, "is VALID"), "get-config accepts an expired configuration %q: %s", args, o.Out)
		return
	}
	k.Check(o.Code == 0 && strings.Contains(o.Out, "✅ Token is VALID"), "get-config rejects the configuration of %q: %s%s", args, o.Out, o.Err)
	k.Check(strings.Contains(o.Out, "Username:   "+u.User+"\n"), "get-config does not print the user of %q: %s", args, o.Out)
	k.Check(strings.Contains(o.Out, "Issuer:     dcontroller\n"), "get-config does not print the issuer of %q: %s", args, o.Out)
	k.printed(args, o.Out, u.U)
	for f, at := range map[string]time.Duration{"Issued At": 0, "Not Before": 0, "Expires At": u.Expiry} {
		_, s, _ := strings.Cut(o.Out, f+":")
		s, _, _ = strings.Cut(s, "\n")
		t, err := time.Parse(time.RFC3339, strings.TrimSpace(s))
		k.Check(err == nil && !t.Before(before.Add(at).Truncate(time.Second)) && !t.After(after.Add(at)), "get-config prints %s %s for %q", f, s, args)
	}
}

// kubeconfig checks a kubeconfig and returns the token in it.
func (k *K) kubeconfig(args []string, cfg *clientcmdapi.Config, u cliUser) string {
	ctx := cfg.Contexts[cfg.CurrentContext]
	if ctx == nil || cfg.AuthInfos[ctx.AuthInfo] == nil || cfg.Clusters[ctx.Cluster] == nil {
		k.Fail("generate-config %q: incomplete configuration %s", args, js(cfg))
	}
	cl := cfg.Clusters[ctx.Cluster]
	scheme := "https://"
	if u.HT {
		scheme = "http://"
	}
	if ctx.AuthInfo != u.User || ctx.Namespace != u.NS || cl.Server != scheme+u.Server || cl.InsecureSkipTLSVerify != u.Ins {
		k.Fail("generate-config %q: configuration %s %s", args, js(ctx), js(cl))
	}
	rc, err := clientcmd.NewDefaultClientConfig(*cfg, &clientcmd.ConfigOverrides{}).ClientConfig()
	k.Check(err == nil, "generate-config %q: the configuration cannot be used: %v", args, err)
	tok := cfg.AuthInfos[ctx.AuthInfo].Token
	k.Check(tok != "" && (u.HT || rc.BearerToken == tok), "generate-config %q: no token", args)
	return tok
}

// token checks the content of a token.
func (k *K) token(args []string, tok string, u cliUser, before, after time.Time) {
	seg := strings.Split(tok, ".")
	k.Check(len(seg) == 3, "generate-config %q: token %q", args, tok)
	b, err := base64.RawURLEncoding.DecodeString(seg[1])
	k.Check(err == nil, "generate-config %q: token %q", args, tok)
	var c struct {
		Username      string
		Namespaces    []string
		Rules         []rbacv1.PolicyRule
		Iss           string
		Exp, Nbf, Iat int64
	}
	k.Check(json.Unmarshal(b, &c) == nil, "generate-config %q: claims %s", args, b)
	near := func(t int64, d time.Duration) bool {
		x := time.Unix(t, 0)
		return !x.Before(before.Add(d).Truncate(time.Second)) && !x.After(after.Add(d))
	}
	if c.Username != u.User || !slices.Equal(c.Namespaces, u.U.NS) || (js(c.Rules) != js(u.U.Rules) && len(c.Rules)+len(u.U.Rules) > 0) ||
		!near(c.Exp, u.Expiry) || !near(c.Nbf, 0) || !near(c.Iat, 0) || c.Iss != "dcontroller" {
		k.Fail("generate-config %q: the token contains %s, want %s", args, b, js(u))
	}
}

// printed checks what is printed about namespaces and rules.
func (k *K) printed(args []string, out string, u auser) {
	want := []string{"Namespaces: <none - no restrictions>"}
	if len(u.NS) > 0 {
		want = []string{fmt.Sprintf("Namespaces: %v\n", u.NS)}
	}
	if len(u.Rules) == 0 {
		want = append(want, "Rules: <none - full access>")
	} else {
		want = append(want, fmt.Sprintf("Rules: %d RBAC", len(u.Rules)))
	}
	for i, r := range u.Rules {
		want = append(want, fmt.Sprintf("[%d] verbs=%v apiGroups=%v resources=%v", i+1, r.Verbs, r.APIGroups, r.Resources))
		if len(r.ResourceNames) > 0 {
			want = append(want, fmt.Sprintf("resourceNames=%v\n", r.ResourceNames))
		}
	}
	n := 0
	for _, r := range u.Rules {
		if len(r.ResourceNames) > 0 {
			n++
		}
	}
	k.Check(strings.Count(out, "resourceNames=") == n, "%q: %d rules with resource names are printed as %s", args, n, out)
	for _, w := range want {
		k.Check(strings.Contains(out, w), "%q: %q is not printed: %s", args, w, out)
	}
}

// c24get: get-config on all kinds of tokens.
func c24get(k *K) {
	dir, done := scratch()
	defer done()
	t := makeToken(k.R)
	for len(t.Headers) != 1 || !strings.HasPrefix(t.Headers[0], "Bearer ") || t.Headers[0] == "Bearer " || t.How == "header" {
		t = makeToken(k.R)
	}
	cfg := auth.GenerateKubeconfig("localhost:8443", "u", strings.TrimPrefix(t.Headers[0], "Bearer "), nil)
	f := filepath.Join(dir, "c")
	k.Check(clientcmd.WriteToFile(*cfg, f) == nil, "scratch file")
	o := k.dctl(dir, nil, "get-config", "--kubeconfig=c", "--tls-cert-file="+filepath.Join(keyOnce().dir, "s.crt"))
	k.Nontrivial("get %s %s", t.How, js(t.Claims))
	if !t.OK {
		k.Check(o.Code != 0 && !strings.Contains(o.Out, "is VALID"), "get-config accepts an invalid token (%s) %s: %s", t.How, t.Headers, o.Out)
		return
	}
	k.Check(o.Code == 0 && strings.Contains(o.Out, "is VALID"), "get-config rejects a valid token (%s) %s: %s%s", t.How, t.Headers, o.Out, o.Err)
	name, ns, rules := claimsOf(t.Claims)
	k.Check(strings.Contains(o.Out, "Username:   "+name+"\n"), "get-config does not print the user %q: %s", name, o.Out)
	k.printed([]string{"get-config"}, o.Out, auser{NS: ns, Rules: rules})
}

// c24start: a server started by the CLI honours the generated credentials.
func c24start(k *K, e *natEnv) {
	dir, done := scratch()
	defer done()
	kc := clientcmdapi.NewConfig()
	kc.Clusters["c"] = &clientcmdapi.Cluster{Server: e.cfg.Host, CertificateAuthorityData: e.cfg.CAData}
	kc.AuthInfos["u"] = &clientcmdapi.AuthInfo{ClientCertificateData: e.cfg.CertData, ClientKeyData: e.cfg.KeyData, Token: e.cfg.BearerToken}
	kc.Contexts["x"] = &clientcmdapi.Context{Cluster: "c", AuthInfo: "u"}
	kc.CurrentContext = "x"
	k.Check(clientcmd.WriteToFile(*kc, filepath.Join(dir, "native.config")) == nil, "scratch file")
	o := k.dctl(dir, nil, "generate-keys", "--hostname=localhost", "--hostname=127.0.0.1")
	k.Check(o.Code == 0, "generate-keys fails: %s", o.Err)

	// an operator that makes one view per configmap-like object
	src := natGVK(0, "Alpha")
	op := opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: "cli-op"}}
	spec := fmt.Sprintf(`{"controllers":[{"name":"c","sources":[{"apiGroup":%q,"kind":"Alpha"}],
		"pipeline":[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"data":"$.spec.data"}}],"target":{"kind":"Cliview"}}]}`, src.Group)
	k.Check(json.Unmarshal([]byte(spec), &op.Spec) == nil, "operator spec")
	k.Check(e.cl.Create(context.Background(), &op) == nil, "creating the operator fails")
	for _, ns := range []string{"default", "other"} {
		for _, n := range []string{"view-1", "view-2"} {
			o := robj(src, ns, n, map[string]any{"spec": map[string]any{"data": "secret_" + ns + "_" + n + "_"}})
			err := e.cl.Create(context.Background(), o)
			k.Check(err == nil, "creating an object fails: %v", err)
		}
	}
	gvk := viewv1a1.GroupVersionKind("cli-op", "Cliview")

	for _, v := range []struct {
		flags  string
		noKeys bool
	}{{"", false}, {"--http", false}, {"--insecure", false}, {"--insecure --disable-authentication", true}, {"--insecure --disable-authentication", false}, {"--http --disable-authentication", true}} {
		flags, wd := v.flags, dir
		if v.noKeys {
			d, done := scratch()
			defer done()
			wd = d
		}
		mode, anon := "https", strings.Contains(flags, "--disable-authentication") || strings.Contains(flags, "--http")
		if strings.Contains(flags, "--http") {
			mode = "http"
		}
		addr := fmt.Sprintf("127.0.0.1:%d", freePort())
		port := addr[strings.LastIndex(addr, ":")+1:]
		args := []string{"start", "--addr=127.0.0.1", "--port=" + port, "--metrics-bind-address=0", "--health-probe-bind-address=0"}
		args = append(args, strings.Fields(flags)...)
		cmd := exec.Command(filepath.Join(k.Dir, ".build", "dctl"), args...)
		cmd.Dir = wd
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + wd, "KUBECONFIG=" + filepath.Join(dir, "native.config")}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = io.Discard, &out
		k.Check(cmd.Start() == nil, "starting dctl fails")
		exited := make(chan error, 1)
		go func() { exited <- cmd.Wait() }()
		stop := func() {
			cmd.Process.Signal(syscall.SIGTERM) //nolint:errcheck
			select {
			case <-exited:
			case <-time.After(30 * time.Second):
				cmd.Process.Kill() //nolint:errcheck
				<-exited
			}
		}
		s := &restServer{base: mode + "://" + addr, hc: &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}}
		func() {
			defer stop()
			token := func(args ...string) string {
				o := k.dctl(dir, nil, append([]string{"generate-config", "--insecure", "--server-address=" + addr}, args...)...)
				k.Check(o.Code == 0, "generate-config fails: %s", o.Err)
				cfg, err := clientcmd.Load([]byte(o.Out))
				k.Check(err == nil, "generate-config: %v", err)
				return "Bearer " + cfg.AuthInfos["u"].Token
			}
			admin := token("--user=u", "--namespaces=*")
			ok := false
			var rep reply
			for i := 0; i < 400 && !ok; i++ {
				rep = s.do("GET", restPath(gvk, "", ""), admin, "", nil, 5*time.Second)
				ok = rep.Code == 200 && strings.Count(string(rep.Body), "secret_") >= 4
				select {
				case err := <-exited:
					exited <- err
					k.Fail("dctl %q exits: %v", args, err)
				default:
				}
				time.Sleep(100 * time.Millisecond)
			}
			k.Check(ok, "dctl %q does not serve the views to its administrator: %v", args, rep)
			k.Eval(1)
			if mode == "https" && !v.noKeys {
				conn, err := tls.Dial("tcp", addr, &tls.Config{InsecureSkipVerify: true, ServerName: "localhost"})
				k.Check(err == nil, "%q: TLS: %v", flags, err)
				got := conn.ConnectionState().PeerCertificates[0].Raw
				conn.Close() //nolint:errcheck
				b, _ := os.ReadFile(filepath.Join(dir, "apiserver.crt"))
				blk, _ := pem.Decode(b)
				k.Check(blk != nil && bytes.Equal(blk.Bytes, got), "%q: the server does not use the certificate in its certificate file", flags)
			}
			if anon {
				rep := s.do("GET", restPath(gvk, "default", "view-1"), "", "", nil, 5*time.Second)
				k.Check(rep.Code == 200, "%q: a request without credentials is answered %v", flags, rep)
				return
			}
			r := k.R
			for i := 0; i < 25; i++ {
				var u auser
				ca := []string{"--user=u"}
				if r.Intn(3) > 0 {
					u.NS = []string{pick(r, "default", "other", "*", "team-a")}
					ca = append(ca, "--namespaces="+u.NS[0])
				}
				if r.Intn(3) > 0 {
					u.Rules = genRules(r, []string{gvk.Group, "apps"}, []string{"cliview", "view"}, []string{"view-1", "view-2"})
					ca = append(ca, "--rules="+js(u.Rules))
				}
				t := token(ca...)
				for j := 0; j < 8; j++ {
					q := areq{Verb: pick(r, "get", "list"), Group: gvk.Group, Resource: "cliview", NS: pick(r, "default", "other")}
					if q.Verb == "get" {
						q.Name = pick(r, "view-1", "view-2")
					} else if r.Intn(3) == 0 {
						q.NS = ""
					}
					rep := s.do("GET", restPath(gvk, q.NS, q.Name), t, "", nil, 10*time.Second)
					want := 403
					if mayDo(u, q) {
						want = 200
					}
					k.Eval(1)
					k.Nontrivial("start %v %s", q, js(u))
					if rep.Code != want || (want == 403 && strings.Contains(string(rep.Body), "secret_")) {
						k.Fail("user %q: %s is answered %v, want status %d", ca, js(q), rep, want)
					}
				}
			}
			for _, h := range []string{"", "Bearer x", "Bearer " + strings.TrimSuffix(strings.TrimPrefix(admin, "Bearer "), "A") + "x"} {
				rep := s.do("GET", restPath(gvk, "", ""), h, "", nil, 10*time.Second)
				k.Check(rep.Code == 401 && !strings.Contains(string(rep.Body), "secret_"), "a request with credentials %q is answered %v", h, rep)
			}
			exp := token("--user=u", "--namespaces=*", "--expiry=-1h")
			rep = s.do("GET", restPath(gvk, "", ""), exp, "", nil, 10*time.Second)
			k.Check(rep.Code == 401, "a request with expired credentials is answered %v", rep)
		}()
		k.Count("cli_servers", 1)
	}
}
