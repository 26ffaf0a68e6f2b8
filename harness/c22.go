package main

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/go-logr/logr"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apiserver/pkg/authentication/authenticator"
	"k8s.io/apiserver/pkg/authentication/user"
	"k8s.io/apiserver/pkg/authorization/authorizer"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/auth"
	"github.com/l7mp/dcontroller/pkg/object"
)

// C22: only valid tokens authenticate, and as exactly their claims.
// C23: authorization grants exactly what the credentials allow.

func init() {
	checks["C22"] = func(c *Ctx) {
		defer dropKeys()
		c.Rule("evaluations = tokens (valid ones, and ones invalid by construction) judged by the authenticator, alone or inside a running API server, compared with how the token was made")
		c.Rule("distinct_nontrivial = distinct ways of making a token times the claims they carry")
		c.Assume("tokens signed with RSA-PSS, non-canonical base64 of the same signature and times within a few seconds of a limit are not judged")
		c.Section("authenticator", c.N(16000, 600000), 8, c22authn)
		c.SectionT("keys", c.N(12, 200), 8, 60*time.Second, c22keys)
		c.SectionT("HTTP", 2, 2, 300*time.Second, c22http)
		c.SectionT("expiry", 1, 1, 60*time.Second, c22expiry)
	}
	checks["C23"] = func(c *Ctx) {
		defer dropKeys()
		c.Rule("evaluations = authorization decisions compared with an independent reading of the documentation, and HTTP requests whose status, reply and effect on the view store were checked against it")
		c.Rule("distinct_nontrivial = distinct rule sets and requests decided")
		c.Assume("patterns with more than one asterisk, and a rule list that is present but empty, are not documented and not judged")
		c.Section("decisions", c.N(40000, 1000000), 8, c23decide)
		c.SectionT("HTTP", c.N(4, 16), 4, 400*time.Second, c23http)
	}
}

// ---- tokens

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func hashOf(alg string) (crypto.Hash, func() hash.Hash) {
	switch alg[2:] {
	case "384":
		return crypto.SHA384, sha512.New384
	case "512":
		return crypto.SHA512, sha512.New
	}
	return crypto.SHA256, sha256.New
}

func rsaSign(key *rsa.PrivateKey, alg, s string) string {
	h, n := hashOf(alg)
	d := n()
	d.Write([]byte(s))
	sig, err := rsa.SignPKCS1v15(crand.Reader, key, h, d.Sum(nil))
	if err != nil {
		panic(err)
	}
	return b64(sig)
}

func hmacSign(key []byte, alg, s string) string {
	_, n := hashOf(alg)
	m := hmac.New(n, key)
	m.Write([]byte(s))
	return b64(m.Sum(nil))
}

// genClaims makes claims that are valid now.
func genClaims(r *rand.Rand) map[string]any {
	now := time.Now().Unix()
	c := map[string]any{"username": pick(r, "alice", "bob", "", "system:admin", "é u", "*", `a"b`, "admin\nroot")}
	if r.Intn(3) > 0 {
		c["namespaces"] = some(r, 1+r.Intn(3), "default", "team-a", "team-b", "*", "", "Default")
	}
	if r.Intn(3) > 0 {
		var rules []any
		for i := 0; i <= r.Intn(3); i++ {
			rule := map[string]any{"verbs": some(r, 1+r.Intn(3), "get", "list", "*", "delete")}
			if r.Intn(4) > 0 {
				rule["apiGroups"] = some(r, 1+r.Intn(2), "", "*", "op.view.dcontroller.io", "*.view.dcontroller.io")
			}
			if r.Intn(4) > 0 {
				rule["resources"] = some(r, 1+r.Intn(2), "*", "healthview", "pods")
			}
			if r.Intn(3) == 0 {
				rule["resourceNames"] = some(r, 1+r.Intn(2), "a", "b", "*")
			}
			if r.Intn(8) == 0 {
				rule["nonResourceURLs"] = []any{"/healthz"}
			}
			rules = append(rules, rule)
		}
		c["rules"] = rules
	}
	if r.Intn(5) > 0 {
		c["exp"] = now + pick(r, int64(60), int64(3600), int64(86400*365*20))
		if r.Intn(6) == 0 {
			c["exp"] = float64(now) + 100.5
		}
	}
	if r.Intn(5) > 0 {
		c["nbf"] = now - pick(r, int64(10), int64(3600), int64(now))
	}
	if r.Intn(2) > 0 {
		c["iat"] = now - 10
	}
	if r.Intn(2) > 0 {
		c["iss"] = pick(r, "dcontroller", "other")
	}
	if r.Intn(6) == 0 {
		c["aud"] = "x"
	}
	if r.Intn(6) == 0 {
		c["groups"] = []any{"system:masters"}
	}
	return c
}

func some(r *rand.Rand, n int, xs ...string) []any {
	var out []any
	for i := 0; i < n; i++ {
		out = append(out, xs[r.Intn(len(xs))])
	}
	return out
}

// madeToken is an Authorization header together with what it must authenticate as (nil: nothing).
type madeToken struct {
	Headers []string
	How     string
	Claims  map[string]any
	OK      bool
}

func encToken(head, claims map[string]any) string {
	return b64([]byte(js(head))) + "." + b64([]byte(js(claims)))
}

func makeToken(r *rand.Rand) madeToken {
	ks := keyOnce()
	claims := genClaims(r)
	alg := pick(r, "RS256", "RS256", "RS384", "RS512")
	head := map[string]any{"alg": alg, "typ": "JWT"}
	if r.Intn(6) == 0 {
		delete(head, "typ")
	}
	body := encToken(head, claims)
	good := body + "." + rsaSign(ks.priv, alg, body)
	now := time.Now().Unix()
	bad := func(how, tok string) madeToken { return madeToken{[]string{"Bearer " + tok}, how, claims, false} }
	resign := func(how string, key *rsa.PrivateKey, h, c map[string]any, alg string) madeToken {
		b := encToken(h, c)
		return madeToken{[]string{"Bearer " + b + "." + rsaSign(key, alg, b)}, how, c, false}
	}
	seg := strings.Split(good, ".")
	flip := func(s string) string {
		b, _ := base64.RawURLEncoding.DecodeString(s)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		return b64(b)
	}
	switch r.Intn(30) {
	default:
		return madeToken{[]string{"Bearer " + good}, "valid " + alg, claims, true}
	case 10: // the repository's own generator
		d := pick(r, time.Minute, time.Hour, 1000*time.Hour)
		ok := r.Intn(3) > 0
		how := "generated"
		if !ok {
			d, how = -d, "generated, expired"
		}
		var ns []string
		for _, n := range aslist(claims["namespaces"]) {
			ns = append(ns, n.(string))
		}
		var rules []rbacv1.PolicyRule
		if err := json.Unmarshal([]byte(js(claims["rules"])), &rules); err != nil {
			panic(err)
		}
		t, err := auth.NewTokenGenerator(ks.priv).GenerateToken(claims["username"].(string), ns, rules, d)
		if err != nil {
			panic(err)
		}
		return madeToken{[]string{"Bearer " + t}, how, claims, ok}
	case 11:
		return resign("foreign key", ks.other, head, claims, alg)
	case 12: // key material offered in the header
		h := map[string]any{"alg": alg, "typ": "JWT", "kid": pick(r, "0", "../../s.key", "/dev/null")}
		h["jwk"] = map[string]any{"kty": "RSA", "n": b64(ks.other.N.Bytes()), "e": "AQAB"}
		h["jku"], h["x5u"] = "http://127.0.0.1:1/keys", "http://127.0.0.1:1/keys"
		return resign("foreign key in header", ks.other, h, claims, alg)
	case 13:
		b := encToken(map[string]any{"alg": pick(r, "none", "None", "NONE", "nOnE", ""), "typ": "JWT"}, claims)
		return bad("alg none", b+"."+pick(r, "", b64([]byte{0}), seg[2]))
	case 14: // the public key as an HMAC secret
		a := pick(r, "HS256", "HS384", "HS512")
		b := encToken(map[string]any{"alg": a, "typ": "JWT"}, claims)
		pub := pick(r, ks.cert, x509.MarshalPKCS1PublicKey(ks.pub), ks.pub.N.Bytes(), []byte{}, []byte("null"))
		if der, err := x509.MarshalPKIXPublicKey(ks.pub); err == nil && r.Intn(3) == 0 {
			pub = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
		}
		return bad("HMAC", b+"."+hmacSign(pub, a, b))
	case 15:
		b := encToken(map[string]any{"alg": "ES256", "typ": "JWT"}, claims)
		key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		d := sha256.Sum256([]byte(b))
		x, y, err := ecdsa.Sign(crand.Reader, key, d[:])
		if err != nil {
			panic(err)
		}
		return bad("ECDSA", b+"."+b64(append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)))
	case 16: // algorithm changed after signing
		a := pick(r, "RS256", "RS384", "RS512", "HS256", "none", "RS1", "rs256", "PS256")
		if a == alg {
			return bad("signature bit", seg[0]+"."+seg[1]+"."+flip(seg[2]))
		}
		return bad("alg changed", b64([]byte(js(map[string]any{"alg": a, "typ": "JWT"})))+"."+seg[1]+"."+seg[2])
	case 17, 18: // claims changed after signing
		c := map[string]any{}
		for k, v := range claims {
			c[k] = v
		}
		switch r.Intn(5) {
		case 0:
			c["username"] = fmt.Sprint(c["username"]) + "x"
		case 1:
			c["namespaces"] = []any{"*", "secret"}
		case 2:
			if _, ok := c["rules"]; ok {
				delete(c, "rules")
			} else {
				c["x"] = 1
			}
		case 3:
			c["exp"] = now + 86400*36500
		default:
			c["nbf"] = now - 12345
		}
		return bad("claims changed", seg[0]+"."+b64([]byte(js(c)))+"."+seg[2])
	case 19:
		i := r.Intn(3)
		seg[i] = flip(seg[i])
		return bad("bit flipped", strings.Join(seg, "."))
	case 20:
		sig, _ := base64.RawURLEncoding.DecodeString(seg[2])
		switch r.Intn(5) {
		case 0:
			sig = sig[:r.Intn(len(sig))]
		case 1:
			sig = append(sig, 0)
		case 2:
			sig = append([]byte{0}, sig...)
		case 3:
			sig = make([]byte, len(sig))
		default:
			for i := range sig {
				sig[i] = 0xff
			}
		}
		return bad("signature replaced", seg[0]+"."+seg[1]+"."+b64(sig))
	case 21: // signature of another token
		c2 := genClaims(r)
		c2["jti"] = "other"
		b2 := encToken(head, c2)
		return bad("signature of another token", seg[0]+"."+seg[1]+"."+rsaSign(ks.priv, alg, b2))
	case 22:
		return bad("segments", pick(r, seg[0]+"."+seg[1], seg[0]+"."+seg[1]+".", good+"."+seg[2], "."+seg[1]+"."+seg[2], seg[0]+".."+seg[2], "..", ".", "", seg[1]+"."+seg[0]+"."+seg[2], good+".", "."+good))
	case 23: // expired
		c := claims
		c["exp"] = now - pick(r, int64(5), int64(60), int64(3600), int64(86400*400), now-1, now+1000)
		if r.Intn(4) == 0 {
			c["exp"] = float64(now) - 30.25
		}
		return resign("expired", ks.priv, head, c, alg)
	case 24:
		c := claims
		c["nbf"] = now + pick(r, int64(30), int64(3600), int64(86400*365))
		return resign("not yet valid", ks.priv, head, c, alg)
	case 25:
		return madeToken{[]string{pick(r, "Basic "+good, good, "Bearer", "Bearer "+good+" x", "Bearer"+good, "Token "+good, "Bearer "+good+","+good,
			"Bearer \""+good+"\"", "Basic "+base64.StdEncoding.EncodeToString([]byte("admin:"+good)), " ", "Bearer null", "Bearer undefined", "Bearer {}")}, "header", claims, false}
	case 26:
		return madeToken{nil, "no header", claims, false}
	case 27: // malformed JSON, properly signed
		b := b64([]byte(js(head))) + "." + b64([]byte(pick(r, "", "null x", "{", "[]", `"x"`, `{"username":1}`, `{"namespaces":"*"}`, `{"rules":{}}`, `{"exp":"never"}`, `{"rules":[{"verbs":"*"}]}`)))
		return bad("malformed claims", b+"."+rsaSign(ks.priv, alg, b))
	}
}

func aslist(v any) []any { l, _ := v.([]any); return l }

// claimsOf is what a user must carry for the claims.
func claimsOf(c map[string]any) (name string, ns []string, rules []rbacv1.PolicyRule) {
	name, _ = c["username"].(string)
	for _, n := range aslist(c["namespaces"]) {
		ns = append(ns, n.(string))
	}
	for _, x := range aslist(c["rules"]) {
		m := x.(map[string]any)
		l := func(k string) (out []string) {
			for _, s := range aslist(m[k]) {
				out = append(out, s.(string))
			}
			return
		}
		rules = append(rules, rbacv1.PolicyRule{Verbs: l("verbs"), APIGroups: l("apiGroups"), Resources: l("resources"), ResourceNames: l("resourceNames"), NonResourceURLs: l("nonResourceURLs")})
	}
	return
}

func sameUser(u user.Info, claims map[string]any) string {
	name, ns, rules := claimsOf(claims)
	if u == nil {
		return "no user"
	}
	if u.GetName() != name || u.GetUID() != "" || len(u.GetGroups()) != 0 {
		return fmt.Sprintf("user %q uid %q groups %q, want user %q", u.GetName(), u.GetUID(), u.GetGroups(), name)
	}
	ex := u.GetExtra()
	if !slices.Equal(ex["namespaces"], ns) {
		return fmt.Sprintf("namespaces %q, want %q", ex["namespaces"], ns)
	}
	var got []rbacv1.PolicyRule
	if len(rules) > 0 || len(ex["rules"]) > 0 {
		if len(ex["rules"]) != 1 {
			return fmt.Sprintf("rules %q, want %s", ex["rules"], js(rules))
		}
		if err := json.Unmarshal([]byte(ex["rules"][0]), &got); err != nil {
			return err.Error()
		}
	}
	if js(got) != js(rules) && !(len(got) == 0 && len(rules) == 0) {
		return fmt.Sprintf("rules %s, want %s", js(got), js(rules))
	}
	for k := range ex {
		if k != "namespaces" && k != "rules" {
			return "unexpected extra " + k
		}
	}
	return ""
}

var c22auth = func() *auth.JWTAuthenticator { return auth.NewJWTAuthenticator(keyOnce().pub) }

func c22authn(k *K) {
	t := makeToken(k.R)
	a := c22auth()
	if k.R.Intn(2) == 0 {
		a = sharedAuthn()
	}
	req := &http.Request{Header: http.Header{}}
	for _, h := range t.Headers {
		req.Header.Add("Authorization", h)
	}
	var resp *authenticator.Response
	var ok bool
	var err error
	k.Protect("authenticating "+t.How, func() { resp, ok, err = a.AuthenticateRequest(req) })
	k.Eval(1)
	k.Count("tokens_"+strings.Fields(t.How)[0], 1)
	k.Nontrivial("%s %s", t.How, js(t.Claims["rules"])+js(t.Claims["namespaces"])+js(t.Claims["username"]))
	if !t.OK {
		if ok || resp != nil {
			k.Fail("a token that is invalid (%s) authenticates: %s: %v", t.How, t.Headers, js(resp))
		}
		if t.Headers == nil && err != nil {
			k.Fail("a request without credentials yields an error: %v", err)
		}
		return
	}
	if !ok || err != nil || resp == nil {
		k.Fail("a valid token (%s) is rejected: %s claims %s: %v", t.How, t.Headers, js(t.Claims), err)
	}
	if d := sameUser(resp.User, t.Claims); d != "" {
		k.Fail("token (%s) with claims %s authenticates as a different user: %s", t.How, js(t.Claims), d)
	}
}

// sharedAuthn is used by all workers at once.
var sharedAuthn = sync.OnceValue(func() *auth.JWTAuthenticator { return auth.NewJWTAuthenticator(keyOnce().pub) })

// c22keys: key pairs written to and read from files work together, and only with each other.
func c22keys(k *K) {
	r := k.R
	var hosts []string
	for i := 0; i < r.Intn(4); i++ {
		hosts = append(hosts, pick(r, "localhost", "127.0.0.1", "api.example.com", "::1", "10.0.0.1"))
	}
	dir, err := os.MkdirTemp("", "vkey")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cert, key, err := auth.GenerateSelfSignedCertWithSANs(hosts)
	k.Check(err == nil, "generating keys for %v: %v", hosts, err)
	cf, kf := filepath.Join(dir, "c"), filepath.Join(dir, "k")
	k.Check(auth.WriteCertAndKey(cf, kf, cert, key) == nil, "writing the keys fails")
	st, err := os.Stat(kf)
	k.Check(err == nil && st.Mode().Perm()&0o77 == 0, "the private key is readable by others: %v", st.Mode())
	priv, err := auth.LoadPrivateKey(kf)
	k.Check(err == nil, "loading the private key: %v", err)
	pub, err := auth.LoadPublicKey(cf)
	k.Check(err == nil, "loading the certificate: %v", err)
	p2, err := auth.ParsePublicKey(cert)
	k.Check(err == nil && p2.Equal(pub) && priv.PublicKey.Equal(pub), "the keys loaded differ from the keys generated: %v", err)
	blk, _ := pem.Decode(cert)
	x, err := x509.ParseCertificate(blk.Bytes)
	k.Check(err == nil, "parsing the certificate: %v", err)
	for _, h := range hosts {
		k.Check(x.VerifyHostname(h) == nil, "the certificate for %v is not valid for %s", hosts, h)
	}
	tok, err := auth.NewTokenGenerator(priv).GenerateToken("u", []string{"a"}, nil, time.Hour)
	k.Check(err == nil, "generating a token: %v", err)
	req := &http.Request{Header: http.Header{"Authorization": {"Bearer " + tok}}}
	_, ok, err := auth.NewJWTAuthenticator(pub).AuthenticateRequest(req)
	k.Check(ok && err == nil, "a token of the generated key is rejected: %v", err)
	_, ok, _ = c22auth().AuthenticateRequest(req)
	k.Check(!ok, "a token of the generated key is accepted by another server")
	k.Eval(4)
	k.Nontrivial("keys %v", hosts)
}

// c22http: the same tokens against a running server.
func c22http(k *K) {
	mode := []string{"http-auth", "https"}[k.Index%2]
	s, err := newREST(mode, logr.Discard())
	k.Check(err == nil, "starting the API server (%s): %v", mode, err)
	defer s.stop()
	gvk := viewv1a1.GroupVersionKind("op", "Healthview")
	k.Check(s.srv.RegisterAPIGroup(gvk.Group, []schema.GroupVersionKind{gvk}) == nil, "registering fails")
	n := k.N(1500, 20000)
	for i := 0; i < n; i++ {
		t := makeToken(k.R)
		// authorization must not interfere
		t2 := t
		h := ""
		if len(t2.Headers) > 0 {
			h = t2.Headers[0]
		}
		path := pick(k.R, restPath(gvk, "default", ""), "/apis", "/apis/"+gvk.Group, "/apis/"+gvk.Group+"/v1alpha1", "/openapi/v2", "/version", "/healthz", restPath(gvk, "default", "x"))
		if strings.ContainsAny(h, "\n\r") {
			continue
		}
		rep := s.do("GET", path, h, "", nil, 20*time.Second)
		if rep.Err != nil {
			k.Fail("%s with %s (%s): %v", path, h, t.How, rep.Err)
		}
		k.Eval(1)
		k.Nontrivial("http %s %s %s", mode, path, t.How)
		if !t.OK && rep.Code != 401 {
			k.Fail("%s: GET %s with an invalid token (%s) %q is answered %v", mode, path, t.How, h, rep)
		}
		if t.OK && rep.Code == 401 {
			k.Fail("%s: GET %s with a valid token (%s) %q is answered %v", mode, path, t.How, h, rep)
		}
	}
	k.Count("http_requests", n)
}

// c22expiry: a token stops being valid when it expires and starts when it becomes valid.
func c22expiry(k *K) {
	ks := keyOnce()
	now := time.Now().Unix()
	mk := func(c map[string]any) *http.Request {
		b := encToken(map[string]any{"alg": "RS256", "typ": "JWT"}, c)
		return &http.Request{Header: http.Header{"Authorization": {"Bearer " + b + "." + rsaSign(ks.priv, "RS256", b)}}}
	}
	a := c22auth()
	try := func(r *http.Request) bool { _, ok, _ := a.AuthenticateRequest(r); return ok }
	short, later := mk(map[string]any{"username": "u", "exp": now + 4}), mk(map[string]any{"username": "u", "nbf": now + 4})
	k.Check(try(short), "a token is rejected before it expires")
	k.Check(!try(later), "a token is accepted before it becomes valid")
	time.Sleep(6 * time.Second)
	k.Check(!try(short), "a token that was used before is accepted after it expires")
	k.Check(try(later), "a token is rejected after it becomes valid")
	k.Eval(4)
	k.Nontrivial("expiry")
}

// ---- authorization

type areq struct {
	Verb, Group, Resource, Name, NS string
	NonResource                     bool
}

type auser struct {
	NS    []string
	Rules []rbacv1.PolicyRule
}

// globMatch is the documented meaning of a pattern with at most one asterisk.
func globMatch(p, s string) bool {
	i := strings.IndexByte(p, '*')
	if i < 0 {
		return p == s
	}
	pre, suf := p[:i], p[i+1:]
	return len(s) >= len(pre)+len(suf) && strings.HasPrefix(s, pre) && strings.HasSuffix(s, suf)
}

func anyMatch(ps []string, s string) bool {
	return slices.ContainsFunc(ps, func(p string) bool { return globMatch(p, s) })
}

// mayDo is the documented authorization decision.
func mayDo(u auser, q areq) bool {
	if q.NonResource {
		return true
	}
	if len(u.NS) > 0 && !slices.Contains(u.NS, "*") && (q.NS == "" || !slices.Contains(u.NS, q.NS)) {
		return false
	}
	if len(u.Rules) == 0 {
		return true
	}
	for _, r := range u.Rules {
		if !anyMatch(r.Verbs, q.Verb) || !anyMatch(r.APIGroups, q.Group) || !anyMatch(r.Resources, q.Resource) {
			continue
		}
		switch q.Verb {
		case "list", "watch", "create", "deletecollection":
			return true
		}
		if len(r.ResourceNames) == 0 || q.Name == "" || anyMatch(r.ResourceNames, q.Name) {
			return true
		}
	}
	return false
}

var (
	azVerbs  = []string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection"}
	azGroups = []string{"op.view.dcontroller.io", "op-a.view.dcontroller.io", "a.op.view.dcontroller.io", "view.dcontroller.io", "xview.dcontroller.io", "", "apps", "abba"}
	azRes    = []string{"healthview", "health", "healthviews", "pods", "aba", "view"}
	azNames  = []string{"view-1", "view-2", "view-10", "a", "aba", "ab", "web-app", "VIEW-1", ""}
	azNS     = []string{"default", "team-a", "team-ab", "Team-a", "kube-system", ""}
)

// genPattern makes a pattern that is close to one of the values.
func genPattern(r *rand.Rand, vals []string) string {
	v := pick(r, vals...)
	switch r.Intn(10) {
	case 0, 1:
		return "*"
	case 2:
		return v + "*"
	case 3:
		return "*" + v
	case 4:
		i := r.Intn(len(v) + 1)
		return v[:i] + "*"
	case 5:
		i := r.Intn(len(v) + 1)
		return "*" + v[i:]
	case 6: // possibly overlapping
		i, j := r.Intn(len(v)+1), r.Intn(len(v)+1)
		return v[:i] + "*" + v[j:]
	}
	return v
}

func genRules(r *rand.Rand, groups, res, names []string) []rbacv1.PolicyRule {
	var out []rbacv1.PolicyRule
	l := func(vals []string, max int) (x []string) {
		for i := 0; i <= r.Intn(max); i++ {
			x = append(x, genPattern(r, vals))
		}
		if r.Intn(25) == 0 {
			return nil
		}
		return
	}
	for i, n := 0, []int{1, 1, 2, 2, 3, 3, 4, 9}[r.Intn(8)]; i < n; i++ {
		p := rbacv1.PolicyRule{Verbs: l(azVerbs, 4), APIGroups: l(groups, 2), Resources: l(res, 2)}
		if r.Intn(2) == 0 {
			p.ResourceNames = l(names, 3)
		}
		out = append(out, p)
	}
	return out
}

func userOf(u auser, r *rand.Rand) user.Info {
	ex := map[string][]string{}
	if len(u.NS) > 0 {
		ex["namespaces"] = u.NS
	}
	if len(u.Rules) > 0 {
		ex["rules"] = []string{js(u.Rules)}
	}
	return &user.DefaultInfo{Name: pick(r, "u", "admin", "system:admin", ""), Extra: ex}
}

func c23decide(k *K) {
	r := k.R
	az := auth.NewCompositeAuthorizer()
	var u auser
	if r.Intn(4) > 0 {
		for i := 0; i <= r.Intn(3); i++ {
			u.NS = append(u.NS, pick(r, append(azNS, "*", "team-*")...))
		}
	}
	if r.Intn(8) > 0 {
		u.Rules = genRules(r, azGroups, azRes, azNames[:8])
	}
	ui := userOf(u, r)
	sig := js(u)
	for i := 0; i < 20; i++ {
		q := areq{Verb: pick(r, azVerbs...), Group: pick(r, azGroups...), Resource: pick(r, azRes...), Name: pick(r, azNames...), NS: pick(r, azNS...)}
		if len(u.NS) > 0 && r.Intn(3) == 0 { // close to one that is allowed
			if n := pick(r, u.NS...); n != "" {
				q.NS = pick(r, n, n[:r.Intn(len(n)+1)], n[r.Intn(len(n)):], n+"x", n+"-x", "x"+n, n+" ", strings.ToUpper(n))
			}
		}
		if r.Intn(25) == 0 {
			q.NonResource = true
		}
		want := mayDo(u, q)
		at := authorizer.AttributesRecord{User: ui, Verb: q.Verb, APIGroup: q.Group, APIVersion: "v1alpha1", Resource: q.Resource, Name: q.Name, Namespace: q.NS, ResourceRequest: !q.NonResource, Path: "/x"}
		var d authorizer.Decision
		var err error
		k.Protect("authorizing", func() { d, _, err = az.Authorize(context.Background(), at) })
		if err != nil || (d == authorizer.DecisionAllow) != want || (d != authorizer.DecisionAllow && d != authorizer.DecisionDeny) {
			k.Fail("user %s requests %s: decision %v (%v), want allow=%v", sig, js(q), d, err, want)
		}
		if !q.NonResource && len(u.NS) == 0 {
			if got := auth.CheckRBACAccess(ui, q.Verb, q.Group, q.Resource, q.Name); got != want {
				k.Fail("user %s requests %s: CheckRBACAccess %v, want %v", sig, js(q), got, want)
			}
		}
		k.Eval(1)
		if want {
			k.Count("allowed", 1)
		} else {
			k.Count("denied", 1)
		}
	}
	// a request without a user, and rules that cannot be read, are denied
	if r.Intn(20) == 0 {
		d, _, _ := az.Authorize(context.Background(), authorizer.AttributesRecord{Verb: "get", ResourceRequest: true, Resource: "healthview", Namespace: "default"})
		k.Check(d != authorizer.DecisionAllow, "a request without a user is allowed")
		bad := &user.DefaultInfo{Name: "u", Extra: map[string][]string{"rules": {pick(r, "", "{", "x", `{"verbs":["*"]}`, `[{"verbs":"*"}]`)}}}
		d, _, _ = az.Authorize(context.Background(), authorizer.AttributesRecord{User: bad, Verb: "get", ResourceRequest: true, Resource: "healthview", Namespace: "default"})
		k.Check(d != authorizer.DecisionAllow, "a user with unreadable rules %q is allowed", bad.Extra["rules"])
	}
	k.Nontrivial("%s", sig)
}

// c23http: requests of restricted users to a running server; a denied request has no effect and
// reveals nothing, an allowed one is not turned away.
func c23http(k *K) {
	r := k.R
	mode := []string{"http-auth", "https"}[k.Index%2]
	s, err := newREST(mode, logr.Discard())
	k.Check(err == nil, "starting the API server (%s): %v", mode, err)
	defer s.stop()
	gvks := []schema.GroupVersionKind{viewv1a1.GroupVersionKind("op", "Health"), viewv1a1.GroupVersionKind("op", "Healthview"), viewv1a1.GroupVersionKind("op-a", "Health")}
	k.Check(s.srv.RegisterGVKs(gvks) == nil, "registering fails")
	groups := []string{gvks[0].Group, gvks[2].Group, "apps"}
	res := []string{"health", "healthview"}
	names := []string{"view-1", "view-2", "view-10"}
	nss := []string{"default", "team-a", "team-ab"}
	secret := func(g schema.GroupVersionKind, ns, name string) string {
		return fmt.Sprintf("secret_%s_%s_%s_%s_", g.Group, g.Kind, ns, name)
	}
	state := map[string]string{}
	fill := func(o object.Object) {
		err := s.cl.Create(context.Background(), o)
		k.Check(err == nil, "filling the store fails: %v", err)
	}
	reset := func() {
		for _, g := range gvks {
			for _, ns := range nss {
				for _, n := range names {
					o := robj(g, ns, n, map[string]any{"data": secret(g, ns, n)})
					o.SetLabels(map[string]string{"app": n})
					fill(o)
				}
			}
		}
		for _, g := range gvks { // objects created by allowed requests
			for _, o := range storeList(k, s.vc, g) {
				if o.GetName() == "new" {
					k.Check(s.cl.Delete(context.Background(), o) == nil, "emptying the store fails")
				}
			}
		}
		state = storeState(k, s.vc, gvks)
	}
	reset()
	n := k.N(1300, 20000)
	for i := 0; i < n; i++ {
		var u auser
		if r.Intn(4) > 0 {
			for j := 0; j <= r.Intn(2); j++ {
				u.NS = append(u.NS, pick(r, nss...))
			}
			if r.Intn(6) == 0 {
				u.NS = append(u.NS, "*")
			}
		}
		if r.Intn(6) > 0 {
			u.Rules = genRules(r, groups, res, names)
		}
		tok, err := auth.NewTokenGenerator(keyOnce().priv).GenerateToken("u", u.NS, u.Rules, time.Hour)
		k.Check(err == nil, "generating a token: %v", err)
		for j := 0; j < 4; j++ {
			q, method, path, ctype, body, limit, sub := c23request(r, gvks, nss, names)
			want := mayDo(u, q)
			rep := s.do(method, path, "Bearer "+tok, ctype, body, limit)
			what := fmt.Sprintf("%s: user %s, %s %s body %s", mode, js(u), method, path, js(body))
			if rep.Err != nil {
				if strings.Contains(rep.Err.Error(), "deadline") && q.Verb == "watch" && want {
					continue
				}
				k.Fail("%s: %v", what, rep.Err)
			}
			k.Eval(1)
			k.Count(fmt.Sprintf("http_%s_%v", q.Verb, want), 1)
			k.Nontrivial("http %s %v %v %s", q.Verb, want, q, js(u))
			// nothing the user may not see
			for _, g := range gvks {
				for _, ns := range nss {
					for _, nm := range names {
						if !strings.Contains(string(rep.Body), secret(g, ns, nm)) {
							continue
						}
						inScope := g.Group == q.Group && strings.ToLower(g.Kind) == q.Resource && (q.NS == "" || q.NS == ns) && (q.Name == "" || q.Name == nm)
						if !want || !inScope {
							k.Fail("%s (%s, allowed: %v) reveals %s: %v", what, js(q), want, secret(g, ns, nm), rep)
						}
					}
				}
			}
			now := storeState(k, s.vc, gvks)
			changed := false
			for key, v := range diffState(state, now) {
				changed = true
				parts := strings.Split(key, "|")
				ok := want && parts[0] == q.Group && strings.ToLower(parts[1]) == q.Resource && (q.NS == "" || parts[2] == q.NS) && (q.Name == "" || parts[3] == q.Name) &&
					slices.Contains([]string{"create", "update", "patch", "delete", "deletecollection"}, q.Verb)
				if !ok || sub {
					k.Fail("%s (%s, allowed: %v, status %d) changes %s: %s", what, js(q), want, rep.Code, key, v)
				}
			}
			if creates := want && ctype == "application/apply-patch+yaml" && state[stateKey(q, gvks)] == ""; creates {
				cq := q
				cq.Verb = "create"
				if !mayDo(u, cq) { // applying an object that does not exist also needs the right to create it
					k.Check(rep.Code >= 400 && !changed, "%s (%s) must not create the object: %v", what, js(q), rep)
					k.Count("http_apply_no_create", 1)
					continue
				}
			}
			if !want && rep.Code != 403 {
				k.Fail("%s (%s) must be denied but is answered %v", what, js(q), rep)
			}
			if want && (rep.Code == 403 || rep.Code == 401) {
				k.Fail("%s (%s) must be allowed but is answered %v", what, js(q), rep)
			}
			if want && !sub && q.Group != "apps" && slices.Contains([]string{"get", "list"}, q.Verb) && slices.Contains(append(names, ""), q.Name) && (q.Name == "" || q.NS != "") && rep.Code != 200 {
				k.Fail("%s (%s) must succeed but is answered %v", what, js(q), rep)
			}
			if changed {
				reset()
			}
		}
	}
	k.Count("http_users", n)
}

// stateKey is the key of the requested object in the state of the store.
func stateKey(q areq, gvks []schema.GroupVersionKind) string {
	for _, g := range gvks {
		if g.Group == q.Group && strings.ToLower(g.Kind) == q.Resource {
			return strings.Join([]string{g.Group, g.Kind, q.NS, q.Name}, "|")
		}
	}
	return ""
}

// c23request makes a request and says what is requested.
func c23request(r *rand.Rand, gvks []schema.GroupVersionKind, nss, names []string) (q areq, method, path, ctype string, body any, limit time.Duration, sub bool) {
	g := pick(r, gvks...)
	if r.Intn(20) == 0 {
		g.Group = "apps"
	}
	ns := pick(r, nss...)
	if r.Intn(5) == 0 {
		ns = ""
	}
	name := pick(r, names...)
	limit = 20 * time.Second
	q = areq{Verb: pick(r, azVerbs...), Group: g.Group, Resource: strings.ToLower(g.Kind), NS: ns}
	o := map[string]any{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "data": "changed"}
	meta := map[string]any{"name": name}
	if ns != "" {
		meta["namespace"] = ns
	}
	if r.Intn(8) == 0 { // a body that names something else
		meta["namespace"] = pick(r, nss...)
	}
	if r.Intn(10) == 0 {
		meta["name"] = pick(r, names...)
	}
	o["metadata"] = meta
	query := []string{}
	if r.Intn(5) == 0 {
		query = append(query, "labelSelector=app%3D"+pick(r, names...))
	}
	if r.Intn(10) == 0 {
		query = append(query, "fieldSelector=metadata.namespace%3D"+pick(r, nss...))
	}
	if r.Intn(10) == 0 {
		query = append(query, pick(r, "namespace="+pick(r, nss...), "dryRun=", "resourceVersion=0", "pretty=true", "limit=1"))
	}
	switch q.Verb {
	case "get", "update", "patch", "delete":
		q.Name = name
		path = restPath(g, ns, name)
		query = nil
		if q.Verb != "update" && q.Verb != "patch" && r.Intn(10) == 0 {
			sub = true
			path += pick(r, "/status", "/scale", "/../"+pick(r, names...))
			if strings.Contains(path, "..") { // never cleaned by the server
				sub, path = false, restPath(g, ns, name)
			}
		}
	default:
		path = restPath(g, ns, "")
	}
	switch q.Verb {
	case "get":
		method = "GET"
	case "list":
		method = "GET"
	case "watch":
		method = "GET"
		limit = time.Duration(30+r.Intn(60)) * time.Millisecond
		if r.Intn(4) == 0 { // the old style of watching
			path = strings.Replace(path, "/v1alpha1/", "/v1alpha1/watch/", 1)
			if r.Intn(2) == 0 {
				q.Name = name
				path += "/" + name
			}
		} else {
			query = append(query, pick(r, "watch=true", "watch=1"))
		}
		query = append(query, "timeoutSeconds=1")
	case "create":
		method, body = "POST", o
		if meta["name"] == name {
			meta["name"] = pick(r, name, "new")
		}
	case "update":
		method, body = "PUT", o
	case "patch":
		method = "PATCH"
		ctype = pick(r, "application/merge-patch+json", "application/json-patch+json", "application/apply-patch+yaml")
		body = map[string]any{"data": "patched"}
		switch ctype {
		case "application/json-patch+json":
			body = []any{map[string]any{"op": "add", "path": "/data", "value": "patched"}}
		case "application/apply-patch+yaml":
			body = o
			query = append(query, "fieldManager=x", "force=true")
		}
	case "delete", "deletecollection":
		method = "DELETE"
	}
	if len(query) > 0 {
		path += "?" + strings.Join(query, "&")
	}
	return
}
