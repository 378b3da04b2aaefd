// C51: every route of the server enforces its scope; what is misconfigured is closed.
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/authref"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/srv"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

var pki = authref.NewPKI()

func main() {
	kit.Main("C51", "the running server, under drawn credential configurations, answers on every data, ownership, listing, identity, observability "+
		"and control route only callers whose identity holds the route's scope, without effect for others; a configuration that asks for "+
		"protection and cannot give it ends the process or refuses everybody", func(r *kit.Run) {
		worlds(r)
		broken(r)
		peers(r)
	})
}

const root = "root-7f3a" // the token that may do everything, where there is one

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func file(r *kit.Run, name, text string) string {
	p := filepath.Join(os.Getenv("VERIF_WORK"), name)
	if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
		panic(err)
	}
	return p
}

func pemOf(kind string, der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}))
}

func tlsFiles(r *kit.Run) (cert, key, ca string) {
	k, err := x509.MarshalPKCS8PrivateKey(pki.Server.PrivateKey)
	if err != nil {
		panic(err)
	}
	return file(r, "server.pem", pemOf("CERTIFICATE", pki.Server.Certificate[0])), file(r, "server.key", pemOf("PRIVATE KEY", k)), file(r, "ca.pem", pemOf("CERTIFICATE", pki.Root.Raw))
}

func some(g *rand.Rand) []httpauth.Scope {
	all := []httpauth.Scope{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin}
	g.Shuffle(3, func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:1+g.Intn(3)]
}

// world draws a configuration a file can express, and writes it.
func world(g *rand.Rand) (*authref.World, string) {
	w := authref.NewWorld(g)
	w.Policy.ServerVerify, w.Hook = nil, nil
	var b strings.Builder
	section := func(name string, n int, line func(i int) (string, []httpauth.Scope)) {
		if n == 0 {
			return
		}
		b.WriteString(name + ":\n")
		for i := range n {
			f, sc := line(i)
			var ss []string
			for _, s := range sc {
				ss = append(ss, string(s))
			}
			fmt.Fprintf(&b, "  - {%s, scopes: [%s]}\n", f, strings.Join(ss, ", "))
		}
	}
	p := &w.Policy
	p.Tokens = append(p.Tokens, httpauth.TokenIdentity{ID: "root", Token: root})
	for i := range p.Tokens {
		p.Tokens[i].Scopes = some(g)
		if p.Tokens[i].ID == "root" {
			p.Tokens[i].Scopes = []httpauth.Scope{"read", "write", "admin"}
		}
		w.Scopes[p.Tokens[i].ID] = p.Tokens[i].Scopes
	}
	for i := range p.BasicIdentities {
		p.BasicIdentities[i].Scopes = some(g)
		w.Scopes[p.BasicIdentities[i].ID] = p.BasicIdentities[i].Scopes
	}
	for i := range p.CertIdentities {
		p.CertIdentities[i].Scopes = some(g)
		w.Scopes[p.CertIdentities[i].SubjectCN] = p.CertIdentities[i].Scopes
	}
	section("tokens", len(p.Tokens), func(i int) (string, []httpauth.Scope) {
		t := p.Tokens[i]
		return "id: " + q(t.ID) + ", token: " + q(t.Token), t.Scopes
	})
	section("users", len(p.BasicIdentities), func(i int) (string, []httpauth.Scope) {
		t := p.BasicIdentities[i]
		return "id: " + q(t.ID) + ", username: " + q(t.Username) + ", password_bcrypt: " + q(string(t.PasswordBcrypt)), t.Scopes
	})
	section("cert_identities", len(p.CertIdentities), func(i int) (string, []httpauth.Scope) {
		t := p.CertIdentities[i]
		return "subject_cn: " + q(t.SubjectCN), t.Scopes
	})
	fmt.Fprintf(&b, "allow_anonymous: %v\nallow_basic_without_tls: %v\n", p.AllowAnonymous, p.AllowBasicWithoutTLS)
	return w, b.String()
}

// site is a running server and how to reach its API.
type site struct {
	s       *srv.Server
	mode    string // plain, tls, mtls
	clients map[string]*http.Client
}

func (t *site) api(cn string) (*http.Client, string) {
	key := t.mode + "/" + cn
	if t.clients[key] == nil {
		c := &tls.Config{RootCAs: pki.Pool, ServerName: "localhost"}
		if cert, ok := pki.Clients[cn]; ok {
			c.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
		}
		t.clients[key] = srv.HTTPClient(c)
	}
	if t.mode == "plain" {
		return t.clients[key], "http://" + t.s.API
	}
	return t.clients[key], "https://" + t.s.API
}

func (t *site) send(rt srv.Route, cn string, hd ...string) (srv.Reply, error) {
	if rt.Port == "mgmt" {
		return srv.Send(srv.Client, "http://"+t.s.Mgmt, rt, hd...)
	}
	c, base := t.api(cn)
	return srv.Send(c, base, rt, hd...)
}

func (t *site) close() {
	for _, c := range t.clients {
		c.CloseIdleConnections()
	}
	t.s.Kill()
}

const anyCN = "svc-a"

// value of a key as the all-powerful token sees it.
func (t *site) value(key string) (string, bool) {
	rep, err := t.send(srv.Route{Port: "api", Method: "GET", Path: "/v1/cache/" + key}, anyCN, "Authorization", "Bearer "+root)
	return string(rep.Body), err == nil && rep.Status == 200
}

func (t *site) store(key, v string) bool {
	rep, err := t.send(srv.Route{Port: "api", Method: "PUT", Path: "/v1/cache/" + key, Body: v}, anyCN, "Authorization", "Bearer "+root)
	return err == nil && rep.Status == 200
}

func worlds(r *kit.Run) {
	if !r.Phase("worlds") {
		return
	}
	cert, key, ca := tlsFiles(r)
	for i := 0; i < r.N(15, 90) && r.Violations() == 0; i++ {
		g := r.Rand("world", i)
		w, text := world(g)
		mode := []string{"plain", "tls", "mtls"}[i%3]
		env := map[string]string{"HYPERCACHE_LOG_LEVEL": "error", "HYPERCACHE_REPLICATION": "1"}
		legacy := g.Intn(4) == 0 && mode == "plain"
		if legacy { // one token for everything
			w = &authref.World{Scopes: map[string][]httpauth.Scope{"default": {"read", "write", "admin"}}}
			w.Policy.Tokens = []httpauth.TokenIdentity{{ID: "default", Token: root, Scopes: w.Scopes["default"]}}
			env["HYPERCACHE_AUTH_TOKEN"], text = root, "(HYPERCACHE_AUTH_TOKEN)"
		} else {
			env["HYPERCACHE_AUTH_CONFIG"] = file(r, fmt.Sprintf("auth-%d.yaml", i), text)
			if g.Intn(3) == 0 {
				env["HYPERCACHE_AUTH_TOKEN"] = "the-peers-own"
			}
		}
		if mode != "plain" {
			env["HYPERCACHE_API_TLS_CERT"], env["HYPERCACHE_API_TLS_KEY"] = cert, key
		}
		if mode == "mtls" {
			env["HYPERCACHE_API_TLS_CLIENT_CA"] = ca
		}
		t := &site{s: srv.New("node"), mode: mode, clients: map[string]*http.Client{}}
		t.s.Run(env)
		if !t.s.Listening(30*time.Second) || !t.store("probe", "old") {
			r.Violate("closed-to-all", "the server does not start, or does not take its own token, with %s API and\n%s\n%s", mode, text, t.s.Log())
			t.close()
			return
		}
		drive(r, g, t, w, text)
		tricks(r, g, t, w)
		if mode != "plain" {
			handshakes(r, t)
		}
		if cr := t.s.Crashed(); cr != "" {
			r.Violate("crash", "the server died: %s", cr)
		}
		t.close()
	}
}

// drive sends drawn credentials to every route.
func drive(r *kit.Run, g *rand.Rand, t *site, w *authref.World, text string) {
	outcome := map[int]int{}
	for j := 0; j < r.N(60, 150) && r.Violations() == 0; j++ {
		c := w.NewCred(g)
		c.Hook, c.TLS = "", t.mode != "plain"
		if t.mode != "mtls" {
			c.Cert = ""
		} else if c.Cert == "" {
			c.Cert = []string{anyCN, "svc", "SVC-A", authref.NoCN}[g.Intn(4)]
		}
		if c.Header == "Bearer the-peers-own" {
			continue
		}
		k := "k" + strconv.Itoa(j)
		routes := srv.Routes(k)
		g.Shuffle(len(routes), func(a, b int) { routes[a], routes[b] = routes[b], routes[a] })
		for _, rt := range routes[:r.N(12, len(routes))] {
			cc := c
			if rt.Port == "mgmt" {
				cc.TLS, cc.Cert = false, ""
			}
			id, ok := w.Expect(cc, t.mode == "mtls")
			var sc []string
			for _, s := range w.Scopes[id] {
				sc = append(sc, string(s))
			}
			want := rt.Want(ok, sc)
			if rt.Changes && want != 200 {
				if !t.store(k, "old") {
					r.Violate("root", "the token with every scope cannot store")
					return
				}
			}
			rep, err := t.send(rt, c.Cert, "Authorization", c.Header)
			if err == srv.ErrHeader {
				continue
			}
			if err != nil {
				r.Violate("unanswered", "%s with %+v: %v %s", rt, c, err, t.s.Crashed())
				return
			}
			r.Add("requests", 1)
			r.Seen("credential", c.Kind)
			r.Seen("route", rt.Port+" "+rt.Method+" "+strings.NewReplacer(k, "KEY").Replace(rt.Path))
			if c.Unsure {
				continue
			}
			outcome[want]++
			got := rep.Status
			if got == 404 && want == 200 && rt.Scope == "read" || got == 202 && want == 200 {
				got = 200
			}
			if got != want {
				r.ViolateWith(fmt.Sprintf("status:%s %s %d not %d", rt.Port, rt.Method+strings.NewReplacer(k, "KEY").Replace(rt.Path), got, want), map[string]any{"config": text, "mode": t.mode},
					"%s with %s %.80q cert %q is answered %d %.200q; the caller is %q with %v: %d expected", rt, c.Kind, c.Header, cc.Cert, rep.Status, rep.Body, id, sc, want)
				return
			}
			if rt.Changes && want != 200 {
				if v, ok := t.value(k); v != "old" || !ok {
					r.Violate("effect:"+rt.Method+" "+rt.Path[:min(len(rt.Path), 12)], "%s by %q with %v is answered %d, and the key is %q %v afterwards", rt, id, sc, rep.Status, v, ok)
				}
				if len(rep.Body) > 0 && strings.Contains(string(rep.Body), "old") {
					r.Violate("leak", "%s refused with %d says %q", rt, rep.Status, rep.Body)
				}
			}
			if want != 200 || rep.Status == 404 {
				continue
			}
			switch {
			case strings.HasPrefix(rt.Path, "/v1/me/can"):
				if m := rep.JSON(); m["allowed"] != slices.Contains(sc, "write") || m["capability"] != "cache.write" {
					r.Violate("can", "%q with %v asks %s: %s", id, sc, rt.Path, rep.Body)
				}
			case rt.Path == "/v1/me":
				var m struct {
					ID                   string
					Scopes, Capabilities []string
				}
				_ = json.Unmarshal(rep.Body, &m)
				wantCaps := []string{}
				for _, s := range sc {
					wantCaps = append(wantCaps, "cache."+s)
				}
				if m.ID != id || !same(m.Scopes, sc) || !same(m.Capabilities, wantCaps) {
					r.Violate("me", "%s %.60q is %q with %v; /v1/me says %s", c.Kind, c.Header, id, sc, rep.Body)
				}
			}
		}
	}
	for o, n := range outcome {
		r.Add(fmt.Sprintf("expected_%d", o), int64(n))
	}
	r.Case(fmt.Sprintf("%s t%d u%d c%d anon=%v", t.mode, len(w.Policy.Tokens), len(w.Policy.BasicIdentities), len(w.Policy.CertIdentities), w.Policy.AllowAnonymous), outcome[200] > 0 && len(outcome) > 1)
}

func same(a, b []string) bool {
	return slices.Equal(slices.Sorted(slices.Values(a)), slices.Sorted(slices.Values(b)))
}

// tricks: paths and headers that might go around the gate.
func tricks(r *kit.Run, g *rand.Rand, t *site, w *authref.World) {
	if w.Policy.AllowAnonymous || !t.store("secret", "old") {
		return
	}
	cn := ""
	if t.mode == "mtls" {
		cn = authref.NoCN
	}
	var list []srv.Route
	for _, p := range []string{"/v1/cache/secret/", "//v1/cache/secret", "/V1/CACHE/secret", "/v1/cache//secret", "/v1/./cache/secret", "/healthz/../v1/cache/secret", "/v1/cache/%73ecret", "/v1%2Fcache%2Fsecret",
		"/v1/cache/secret?token=" + root, "/v1/cache/secret?access_token=" + root, "/v1/cache/secret;x=1", "/v1/cache/secret#", "/v1/cache/keys/", "/v1/openapi.yaml/../cache/secret", "/v1/me/", "/v1/owners/secret/", "/v1/cache/batch/get/"} {
		for _, m := range []string{"GET", "HEAD", "PUT", "DELETE", "POST"} {
			list = append(list, srv.Route{Port: "api", Method: m, Path: p, Body: `{"keys":["secret"]}`})
		}
	}
	for _, p := range []string{"/clear/", "//clear", "/CLEAR", "/health/../clear", "/config/", "/CONFIG", "/stats?token=" + root, "/evict/", "/health/../config", "/cluster/members/"} {
		for _, m := range []string{"GET", "POST", "HEAD"} {
			list = append(list, srv.Route{Port: "mgmt", Method: m, Path: p})
		}
	}
	hds := [][]string{nil, {"X-HTTP-Method-Override", "GET"}, {"X-Forwarded-For", "127.0.0.1"}, {"X-Original-URL", "/healthz"}, {"X-Rewrite-URL", "/healthz"}, {"Proxy-Authorization", "Bearer " + root}, {"X-Authorization", "Bearer " + root},
		{"Cookie", "token=" + root}, {"X-Forwarded-Client-Cert", "Subject=\"CN=svc-a\""}, {"X-SSL-Client-CN", "svc-a"}, {"Authorization", "Bearer wrong", "Authorization", "Bearer " + root + "x"}}
	for _, rt := range list {
		hd := hds[g.Intn(len(hds))]
		rep, err := t.send(rt, cn, hd...)
		if err != nil {
			continue
		}
		r.Add("tricks", 1)
		if rep.Status < 300 && string(rep.Body) != "ok" && len(rep.Body) > 0 && !strings.HasPrefix(string(rep.Body), "openapi") || rep.Status < 300 && rt.Method != "HEAD" && len(rep.Body) == 0 {
			r.Violate("trick:"+rt.Port+" "+rt.Path, "%s with headers %v and no credential is answered %d %.200q", rt, hd, rep.Status, rep.Body)
		}
		if v, ok := t.value("secret"); !ok || v != "old" {
			r.Violate("trick-effect:"+rt.Port+" "+rt.Path, "%s with headers %v and no credential: the key is %q %v afterwards", rt, hd, v, ok)
			return
		}
	}
}

// handshakes: a TLS listener speaks nothing else; with client certificates asked for, only with one of the right authority.
func handshakes(r *kit.Run, t *site) {
	if rep, err := srv.Send(srv.Client, "http://"+t.s.API, srv.Route{Method: "GET", Path: "/healthz"}); err == nil && rep.Status < 400 {
		r.Violate("plaintext", "the TLS listener answers a plaintext request %d %.100q", rep.Status, rep.Body)
	}
	for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11} {
		c := srv.HTTPClient(&tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: v, Certificates: []tls.Certificate{pki.Clients[anyCN]}})
		if rep, err := srv.Send(c, "https://"+t.s.API, srv.Route{Method: "GET", Path: "/healthz"}); err == nil {
			r.Violate("old-tls", "the listener takes TLS version %#x: %d", v, rep.Status)
		}
	}
	if t.mode != "mtls" {
		return
	}
	for cn, f := range pki.Forged {
		for _, c := range []*tls.Config{{InsecureSkipVerify: true}, {InsecureSkipVerify: true, GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &f, nil }}} {
			if rep, err := srv.Send(srv.HTTPClient(c), "https://"+t.s.API, srv.Route{Method: "GET", Path: "/v1/me"}, "Authorization", "Bearer "+root); err == nil {
				r.Violate("handshake", "without a certificate of the configured authority (%q) the listener answers %d", cn, rep.Status)
			}
			r.Add("handshakes", 1)
		}
	}
	mismatched := tls.Certificate{Certificate: pki.Clients[anyCN].Certificate, PrivateKey: newKey()}
	c := &tls.Config{InsecureSkipVerify: true, GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &mismatched, nil }}
	if rep, err := srv.Send(srv.HTTPClient(c), "https://"+t.s.API, srv.Route{Method: "GET", Path: "/v1/me"}); err == nil {
		r.Violate("handshake", "with a certificate whose key is not held the listener answers %d", rep.Status)
	}
}

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

// broken configurations.
func broken(r *kit.Run) {
	if !r.Phase("broken") {
		return
	}
	cert, key, ca := tlsFiles(r)
	other, err := x509.MarshalPKCS8PrivateKey(newKey())
	if err != nil {
		panic(err)
	}
	otherKey := file(r, "other.key", pemOf("PRIVATE KEY", other))
	junk := file(r, "junk", "not what it should be")
	empty := file(r, "empty", "")
	idp := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		_, _ = w.Write([]byte(`{"issuer":"https://somebody.else","jwks_uri":"https://somebody.else/keys","authorization_endpoint":"https://x/a","token_endpoint":"https://x/t"}`))
	}))
	defer idp.Close()
	nth := 0
	yaml := func(s string) map[string]string {
		nth++
		return map[string]string{"HYPERCACHE_AUTH_CONFIG": file(r, fmt.Sprintf("broken-%d.yaml", nth), s)}
	}
	good := "tokens:\n  - {id: a, token: " + root + ", scopes: [read]}\n"
	h := authref.Hash("pw")
	type cfg struct {
		name string
		env  map[string]string
		must string // "exit": has to end; "closed": may run if it refuses everybody; "open": documented
	}
	list := []cfg{
		{"no configuration at all", nil, "open"},
		{"anonymous allowed", yaml("allow_anonymous: true\n"), "open"},
		{"missing file", map[string]string{"HYPERCACHE_AUTH_CONFIG": "/nonexistent/auth.yaml"}, "exit"},
		{"directory", map[string]string{"HYPERCACHE_AUTH_CONFIG": "/"}, "exit"},
		{"missing file beside a token", map[string]string{"HYPERCACHE_AUTH_CONFIG": "/nonexistent/auth.yaml", "HYPERCACHE_AUTH_TOKEN": root}, "exit"},
		{"junk", map[string]string{"HYPERCACHE_AUTH_CONFIG": junk}, "exit"},
		{"empty file", map[string]string{"HYPERCACHE_AUTH_CONFIG": empty}, "closed"},
		{"only a comment", yaml("# nothing\n"), "closed"},
		{"null", yaml("null\n"), "closed"},
		{"empty mapping", yaml("{}\n"), "closed"},
		{"empty tokens", yaml("tokens: []\n"), "closed"},
		{"nothing allowed", yaml("allow_anonymous: false\n"), "closed"},
		{"null tokens", yaml("tokens:\nusers: null\n"), "closed"},
		{"only a flag", yaml("allow_basic_without_tls: true\n"), "closed"},
		{"certificates without TLS", yaml("cert_identities:\n  - {subject_cn: svc-a, scopes: [read, write, admin]}\n"), "closed"},
		{"users without TLS", yaml("users:\n  - {id: u, username: u, password_bcrypt: " + q(h) + ", scopes: [read, write, admin]}\n"), "closed"},
		{"unknown field", yaml("tokns:\n  - {id: a, token: b, scopes: [read]}\n"), "exit"},
		{"unknown field beside", yaml(good + "allow_anonymus: false\n"), "exit"},
		{"unknown scope", yaml("tokens:\n  - {id: a, token: b, scopes: [reed]}\n"), "exit"},
		{"scope in capitals", yaml("tokens:\n  - {id: a, token: b, scopes: [READ]}\n"), "exit"},
		{"no scopes", yaml("tokens:\n  - {id: a, token: b, scopes: []}\n"), "exit"},
		{"no scopes named", yaml("tokens:\n  - {id: a, token: bb}\n"), "exit"},
		{"empty token", yaml("tokens:\n  - {id: a, token: \"\", scopes: [read]}\n"), "exit"},
		{"no token", yaml("tokens:\n  - {id: a, scopes: [read]}\n"), "exit"},
		{"no id", yaml("tokens:\n  - {token: a, scopes: [read]}\n"), "exit"},
		{"one token twice", yaml("tokens:\n  - {id: a, token: b, scopes: [read]}\n  - {id: c, token: b, scopes: [admin]}\n"), "exit"},
		{"plain password", yaml("users:\n  - {id: u, username: u, password_bcrypt: secret, scopes: [read]}\n"), "exit"},
		{"cut hash", yaml("users:\n  - {id: u, username: u, password_bcrypt: " + q(h[:40]) + ", scopes: [read]}\n"), "exit"},
		{"no user name", yaml("users:\n  - {id: u, password_bcrypt: " + q(h) + ", scopes: [read]}\n"), "exit"},
		{"no subject", yaml("cert_identities:\n  - {scopes: [read]}\n"), "exit"},
		{"second document", yaml(good + "---\nallow_anonymous: true\n"), "exit"},
		{"key twice", yaml(good + good), "exit"},
		{"bad indentation", yaml("tokens:\n - id: a\n  token: b\n"), "exit"},
		{"certificate without key", map[string]string{"HYPERCACHE_AUTH_TOKEN": root, "HYPERCACHE_API_TLS_CERT": cert}, "exit"},
		{"key without certificate", map[string]string{"HYPERCACHE_API_TLS_KEY": key}, "exit"},
		{"client authority alone", map[string]string{"HYPERCACHE_API_TLS_CLIENT_CA": ca}, "exit"},
		{"client authority and key", map[string]string{"HYPERCACHE_API_TLS_CLIENT_CA": ca, "HYPERCACHE_API_TLS_KEY": key}, "exit"},
		{"missing certificate file", map[string]string{"HYPERCACHE_API_TLS_CERT": "/nonexistent", "HYPERCACHE_API_TLS_KEY": key}, "exit"},
		{"junk certificate", map[string]string{"HYPERCACHE_API_TLS_CERT": junk, "HYPERCACHE_API_TLS_KEY": key}, "exit"},
		{"key of another", map[string]string{"HYPERCACHE_API_TLS_CERT": cert, "HYPERCACHE_API_TLS_KEY": otherKey}, "exit"},
		{"missing authority file", map[string]string{"HYPERCACHE_API_TLS_CERT": cert, "HYPERCACHE_API_TLS_KEY": key, "HYPERCACHE_API_TLS_CLIENT_CA": "/nonexistent"}, "exit"},
		{"junk authority", map[string]string{"HYPERCACHE_API_TLS_CERT": cert, "HYPERCACHE_API_TLS_KEY": key, "HYPERCACHE_API_TLS_CLIENT_CA": junk}, "exit"},
		{"empty authority", map[string]string{"HYPERCACHE_API_TLS_CERT": cert, "HYPERCACHE_API_TLS_KEY": key, "HYPERCACHE_API_TLS_CLIENT_CA": empty}, "exit"},
		{"a key as authority", map[string]string{"HYPERCACHE_API_TLS_CERT": cert, "HYPERCACHE_API_TLS_KEY": key, "HYPERCACHE_API_TLS_CLIENT_CA": key}, "exit"},
		{"issuer without audience", map[string]string{"HYPERCACHE_OIDC_ISSUER": idp.URL}, "exit"},
		{"issuer without audience beside a token", map[string]string{"HYPERCACHE_OIDC_ISSUER": idp.URL, "HYPERCACHE_AUTH_TOKEN": root}, "exit"},
		{"audience without issuer", map[string]string{"HYPERCACHE_OIDC_AUDIENCE": "cache"}, "exit"},
		{"audience without issuer, anonymous allowed", map[string]string{"HYPERCACHE_OIDC_AUDIENCE": "cache", "HYPERCACHE_AUTH_CONFIG": file(r, "anon.yaml", "allow_anonymous: true\n")}, "exit"},
		{"unreachable issuer", map[string]string{"HYPERCACHE_OIDC_ISSUER": "http://" + srv.Ports(1)[0], "HYPERCACHE_OIDC_AUDIENCE": "cache"}, "exit"},
		{"issuer of another name", map[string]string{"HYPERCACHE_OIDC_ISSUER": idp.URL, "HYPERCACHE_OIDC_AUDIENCE": "cache"}, "exit"},
		{"token of blanks", map[string]string{"HYPERCACHE_AUTH_TOKEN": "  "}, "closed"},
	}
	type result struct{ msg, sig string }
	out := make(chan result)
	sem := make(chan struct{}, 6)
	for _, c := range list {
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			sig, msg := probe(r, c.name, c.env, c.must)
			out <- result{msg, sig}
		}()
	}
	for range list {
		if x := <-out; x.sig != "" {
			r.Violate(x.sig, "%s", x.msg)
		}
	}
}

func probe(r *kit.Run, name string, env map[string]string, must string) (string, string) {
	s := srv.New("node")
	e := map[string]string{"HYPERCACHE_LOG_LEVEL": "error", "HYPERCACHE_REPLICATION": "1"}
	for k, v := range env {
		e[k] = v
	}
	s.Run(e)
	defer s.Kill()
	r.Seen("configuration", name)
	r.Case("broken "+name, true)
	limit := 30 * time.Second
	up := s.Listening(limit)
	if gone, err := s.Exited(); gone {
		r.Add("ended", 1)
		switch {
		case must == "open":
			return "dead:" + name, fmt.Sprintf("with %s the server ends: %v %s", name, err, s.Log())
		case err == nil:
			return "exit-code:" + name, fmt.Sprintf("with %s the server ends as if all was well: %s", name, s.Log())
		case strings.Contains(s.Log(), "panic:"):
			return "panic:" + name, fmt.Sprintf("with %s the server panics: %s", name, s.Log())
		}
		return "", ""
	}
	if !up {
		return "", ""
	}
	if must == "exit" { // a moment to notice
		if !s.WaitExit(3 * time.Second) {
			return "runs:" + name, fmt.Sprintf("with %s (%v) the server runs", name, env)
		}
		return "", ""
	}
	// What the first listener says while the others come up is part of it.
	for _, rt := range srv.Routes("k") {
		base := "http://" + s.API
		if rt.Port == "mgmt" {
			base = "http://" + s.Mgmt
		}
		for _, h := range []string{"", "Bearer x", "Bearer ", "Bearer", "Basic dTpwdw==", "Basic Og=="} {
			rep, err := srv.Send(srv.Client, base, rt, "Authorization", h)
			r.Add("probes", 1)
			if err != nil {
				return "unanswered:" + name, fmt.Sprintf("with %s, %s: %v %s", name, rt, err, s.Crashed())
			}
			switch {
			case must == "open" && (rep.Status == 401 || rep.Status == 403):
				return "shut:" + name, fmt.Sprintf("with %s, %s is answered %d", name, rt, rep.Status)
			case must == "closed" && rt.Scope != "" && rep.Status != 401:
				return "open:" + name, fmt.Sprintf("with %s (%v), %s with %q is answered %d %.100q", name, env, rt, h, rep.Status, rep.Body)
			}
		}
	}
	return "", ""
}

// peers: with a token configured, the port the nodes talk to each other on wants it too.
func peers(r *kit.Run) {
	if !r.Phase("peers") {
		return
	}
	for i := 0; i < r.N(1, 4); i++ {
		s := srv.New("node")
		env := map[string]string{"HYPERCACHE_LOG_LEVEL": "error", "HYPERCACHE_REPLICATION": "1", "HYPERCACHE_AUTH_TOKEN": root}
		if i%2 == 1 {
			env["HYPERCACHE_AUTH_CONFIG"] = file(r, "peers.yaml", "tokens:\n  - {id: a, token: other, scopes: [read, write, admin]}\n")
		}
		s.Run(env)
		if !s.Listening(30 * time.Second) {
			r.Inconclusive("the server does not come up: " + s.Log())
			return
		}
		api := root
		if i%2 == 1 {
			api = "other"
		}
		if rep, err := srv.Do("PUT", s.API, "/v1/cache/k", []byte("old"), "Authorization", "Bearer "+api); err != nil || rep.Status != 200 {
			r.Violate("peers-put", "PUT: %d %v", rep.Status, err)
		}
		for _, rt := range []srv.Route{{Method: "GET", Path: "/health"}, {Method: "GET", Path: "/internal/cache/get?key=k"}, {Method: "GET", Path: "/internal/get?key=k"}, {Method: "DELETE", Path: "/internal/cache/remove?key=k"}, {Method: "DELETE", Path: "/internal/del?key=k"},
			{Method: "POST", Path: "/internal/cache/set", Body: `{"key":"k","value":"ZXZpbA==","version":99}`}, {Method: "POST", Path: "/internal/set", Body: `{"key":"k","value":"ZXZpbA==","version":99}`},
			{Method: "GET", Path: "/internal/keys"}, {Method: "GET", Path: "/internal/merkle"}, {Method: "POST", Path: "/dist/drain"}, {Method: "GET", Path: "/internal/probe?target=node"}, {Method: "POST", Path: "/internal/gossip", Body: "[]"}} {
			for _, h := range []string{"", "Bearer " + root + "x", "Bearer " + root[:len(root)-1], root, "Bearer", "Basic " + root, "Bearer other"} {
				rep, err := srv.Send(srv.Client, "http://"+s.Dist, rt, "Authorization", h)
				r.Add("peer_probes", 1)
				if err != nil || rep.Status != 401 {
					r.Violate("peers:"+rt.Path, "%s %s on the peer port with %q is answered %d %.100q %v", rt.Method, rt.Path, h, rep.Status, rep.Body, err)
				}
			}
			if rep, err := srv.Do("GET", s.API, "/v1/cache/k", nil, "Authorization", "Bearer "+api); err != nil || string(rep.Body) != "old" {
				r.Violate("peers-effect:"+rt.Path, "after %s without the peers' token the key reads %d %q %v", rt.Path, rep.Status, rep.Body, err)
				break
			}
		}
		if rep, err := srv.Send(srv.Client, "http://"+s.Dist, srv.Route{Method: "GET", Path: "/internal/keys"}, "Authorization", "Bearer "+root); err != nil || rep.Status != 200 {
			r.Violate("peers-token", "the peers' token is answered %d %v", rep.Status, err)
		}
		if rep, err := srv.Do("PUT", s.API, "/v1/cache/k", []byte("new"), "Authorization", "Bearer "+api); err != nil || rep.Status != 200 {
			r.Violate("peers-put", "a drain nobody was allowed to ask for: PUT %d %s %v", rep.Status, rep.Body, err)
		}
		s.Kill()
		r.Case(fmt.Sprintf("peers %d", i), true)
	}
}
