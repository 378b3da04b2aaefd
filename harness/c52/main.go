// C52: identity-provider tokens are accepted only when valid for this service, and grant what they carry.
package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/srv"
)

func main() {
	kit.Main("C52", "the running server with an identity provider configured answers a bearer of a token according to the token's own claims exactly "+
		"when its signature, issuer, audience, validity period and identity are right; every forged, foreign, stale or malformed token is nobody's", func(r *kit.Run) {
		tokens(r)
		rotation(r)
		together(r)
	})
}

var b64 = base64.RawURLEncoding

// idp is an identity provider under our control.
type idp struct {
	*httptest.Server
	issuer  string
	base    string
	mu      sync.Mutex
	keys    map[string]crypto.Signer // kid -> key, published
	down    atomic.Bool
	fetches atomic.Int64
	foreign atomic.Int64 // requests only a token's own header could have caused
	algs    []string
}

var rsaA, rsaB = rsaKey(), rsaKey()

func rsaKey() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(crand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	return k
}

func ecKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

func newIDP(path string, algs []string) *idp {
	p := &idp{keys: map[string]crypto.Signer{"rsa-1": rsaA, "ec-1": ecKey()}, algs: algs}
	mux := http.NewServeMux()
	mux.HandleFunc(path+"/.well-known/openid-configuration", func(w http.ResponseWriter, _ *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(map[string]any{"issuer": p.issuer, "jwks_uri": p.base + "/keys", "authorization_endpoint": p.base + "/a", "token_endpoint": p.base + "/t", "id_token_signing_alg_values_supported": p.algs})
	})
	mux.HandleFunc("/keys", func(w http.ResponseWriter, _ *http.Request) {
		p.fetches.Add(1)
		if p.down.Load() {
			http.Error(w, "down", 500)
			return
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		var ks []any
		for kid, k := range p.keys {
			ks = append(ks, jwk(kid, k.Public()))
		}
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(map[string]any{"keys": ks})
	})
	mux.HandleFunc("/", func(http.ResponseWriter, *http.Request) { p.foreign.Add(1) })
	p.Server = httptest.NewUnstartedServer(mux)
	p.base = "http://" + p.Listener.Addr().String()
	p.issuer = p.base + path
	p.Start()
	return p
}

func jwk(kid string, k crypto.PublicKey) map[string]any {
	switch k := k.(type) {
	case *rsa.PublicKey:
		return map[string]any{"kty": "RSA", "kid": kid, "use": "sig", "n": b64.EncodeToString(k.N.Bytes()), "e": b64.EncodeToString(big.NewInt(int64(k.E)).Bytes())}
	case *ecdsa.PublicKey:
		return map[string]any{"kty": "EC", "crv": "P-256", "kid": kid, "use": "sig", "x": b64.EncodeToString(k.X.FillBytes(make([]byte, 32))), "y": b64.EncodeToString(k.Y.FillBytes(make([]byte, 32)))}
	}
	return nil
}

func j(v any) string { b, _ := json.Marshal(v); return b64.EncodeToString(b) }

func sign(alg string, key any, in string) []byte {
	switch alg {
	case "RS256", "PS256":
		h := sha256.Sum256([]byte(in))
		if alg == "PS256" {
			s, _ := rsa.SignPSS(crand.Reader, key.(*rsa.PrivateKey), crypto.SHA256, h[:], nil)
			return s
		}
		s, _ := rsa.SignPKCS1v15(crand.Reader, key.(*rsa.PrivateKey), crypto.SHA256, h[:])
		return s
	case "RS512":
		h := sha512.Sum512([]byte(in))
		s, _ := rsa.SignPKCS1v15(crand.Reader, key.(*rsa.PrivateKey), crypto.SHA512, h[:])
		return s
	case "ES256":
		h := sha256.Sum256([]byte(in))
		a, b, _ := ecdsa.Sign(crand.Reader, key.(*ecdsa.PrivateKey), h[:])
		return append(a.FillBytes(make([]byte, 32)), b.FillBytes(make([]byte, 32))...)
	case "HS256":
		m := hmac.New(sha256.New, key.([]byte))
		m.Write([]byte(in))
		return m.Sum(nil)
	}
	return nil
}

func jwt(hd map[string]any, claims any, key any) string {
	in := j(hd) + "." + j(claims)
	return in + "." + b64.EncodeToString(sign(hd["alg"].(string), key, in))
}

// conf of the server as far as tokens go.
type conf struct {
	p                  *idp
	aud, idClaim, scCl string
	anon, static       bool
}

// tok is a token and what it is worth.
type tok struct {
	kind, raw string
	valid     bool
	id        string
	scopes    []string
	unsure    bool
}

func (c conf) claims(g *rand.Rand) (map[string]any, string, []string) {
	now := time.Now().Unix()
	id := fmt.Sprintf("user-%d@é.example", g.Intn(1000))
	var sc []string
	for _, s := range []string{"read", "write", "admin"} {
		if g.Intn(2) == 0 {
			sc = append(sc, s)
		}
	}
	g.Shuffle(len(sc), func(i, j int) { sc[i], sc[j] = sc[j], sc[i] })
	m := map[string]any{"iss": c.p.issuer, "aud": c.aud, "exp": now + 600 + int64(g.Intn(1e6)), "iat": now - int64(g.Intn(1000)), "sub": "someone-else", "email": "else@example.org", "scope": "", "roles": []string{"nothing"}}
	m[c.idClaim] = id
	words := slices.Clone(sc)
	for range g.Intn(3) { // what is no scope of ours grants nothing
		if s := []string{"read", "write", "admin"}[g.Intn(3)]; g.Intn(2) == 0 {
			words = append(words, fmt.Sprintf([]string{"billing:%s", "%s:billing", "%s/", "/%s", "api://other/%s", "%s.all", "other.%s", "%s-only", "no-%s", "_%s", "%s_", "%s,", ",%s", "%s;", "%s|", "'%s'", "[%s]", "%s=false", "!%s", "-%s",
				"%s\u200b", "%s%%", "%ss", "un%s", "%s#x", "x#%s", "%s?", "urn:x:%s", "scope=%s", "\u00a0%s\u00e9"}[g.Intn(30)], s))
			continue
		}
		if s := []string{"reaD", "wrIte", "ADMIN", "aDmin", "r\u0435ad", "wri\u0442e", "\uff41dmin", "reads", "rea", "writ", "admi", "dmin"}[g.Intn(12)]; g.Intn(3) == 0 {
			words = append(words, s)
			continue
		}
		words = append(words, []string{"openid", "READ", "cache.read", "writer", "adm in", "read,write", "Admin", "*", "write:all", "readwrite"}[g.Intn(10)])
	}
	if len(sc) > 0 && g.Intn(4) == 0 {
		words = append(words, sc[0])
	}
	g.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	for i, w := range words {
		words[i] = strings.ReplaceAll(w, "adm in", "adm_in")
	}
	if g.Intn(2) == 0 {
		m[c.scCl] = strings.Join(words, " ")
	} else {
		var l []any
		for _, w := range words {
			l = append(l, w)
		}
		for range g.Intn(2) {
			l = append(l, []any{1, nil, true, map[string]any{"admin": true}, []any{"admin"}}[g.Intn(5)])
		}
		if l == nil {
			l = []any{}
		}
		m[c.scCl] = l
	}
	if g.Intn(3) == 0 {
		m["nbf"] = now - int64(g.Intn(1000))
	}
	if g.Intn(3) == 0 {
		m["aud"] = []any{"other", c.aud}
	}
	if c.idClaim == "email" && g.Intn(2) == 0 {
		m["email_verified"] = true
	}
	return m, id, sc
}

func (c conf) signer(g *rand.Rand) (map[string]any, any) {
	if g.Intn(2) == 0 && slices.Contains(c.p.algs, "ES256") {
		return map[string]any{"alg": "ES256", "kid": "ec-1", "typ": "JWT"}, c.p.keys["ec-1"]
	}
	return map[string]any{"alg": "RS256", "kid": "rsa-1"}, rsaA
}

var forgeries = []string{"none", "None", "empty-signature", "hs-pem", "hs-der", "hs-n", "other-key", "other-key-same-kid", "foreign-kid", "jwk-header", "jku-header", "alg-swap", "alg-unsupported", "payload-swap", "scope-edit", "bit", "cut", "header-edit", "crit",
	"iss-slash", "iss-other", "iss-missing", "iss-case", "iss-array", "aud-other", "aud-missing", "aud-prefix", "aud-list-other", "aud-case", "aud-empty", "aud-number", "aud-in-azp", "exp-past", "exp-missing", "exp-just", "exp-string", "exp-zero", "exp-negative", "nbf-future",
	"id-missing", "id-number", "id-empty", "id-array", "id-null", "four-parts", "two-parts", "padded", "json", "not-json", "quoted", "twice", "no-scheme", "basic-scheme", "array-payload", "null-payload", "x5c-header"}

var odd = []string{"scope-number", "scope-null", "scope-object", "scope-missing", "scope-true", "scope-tabs"}

func (c conf) draw(g *rand.Rand) tok {
	m, id, sc := c.claims(g)
	hd, key := c.signer(g)
	good := func() tok { return tok{"good", "Bearer " + jwt(hd, m, key), true, id, sc, false} }
	switch g.Intn(5) {
	case 0, 1:
		return good()
	case 2:
		k := odd[g.Intn(len(odd))]
		switch k {
		case "scope-number":
			m[c.scCl], sc = 7, nil
		case "scope-null":
			m[c.scCl], sc = nil, nil
		case "scope-object":
			m[c.scCl], sc = map[string]any{"admin": "admin", "read": true}, nil
		case "scope-missing":
			delete(m, c.scCl)
			sc = nil
		case "scope-true":
			m[c.scCl], sc = true, nil
		case "scope-tabs":
			m[c.scCl] = "  " + strings.Join(sc, "   ") + " "
		}
		t := good()
		t.kind = k
		return t
	}
	k := forgeries[g.Intn(len(forgeries))]
	t := tok{kind: k}
	now := time.Now().Unix()
	m[c.scCl] = "read write admin"
	pub, _ := x509.MarshalPKIXPublicKey(&rsaA.PublicKey)
	raw := ""
	switch k {
	case "none", "None":
		raw = j(map[string]any{"alg": k}) + "." + j(m) + "."
	case "empty-signature":
		raw = j(hd) + "." + j(m) + "."
	case "hs-pem":
		raw = jwt(map[string]any{"alg": "HS256", "kid": "rsa-1"}, m, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pub}))
	case "hs-der":
		raw = jwt(map[string]any{"alg": "HS256", "kid": "rsa-1"}, m, pub)
	case "hs-n":
		raw = jwt(map[string]any{"alg": "HS256"}, m, rsaA.N.Bytes())
	case "other-key":
		raw = jwt(map[string]any{"alg": "RS256", "kid": "rsa-2"}, m, rsaB)
	case "other-key-same-kid":
		raw = jwt(map[string]any{"alg": "RS256", "kid": "rsa-1"}, m, rsaB)
	case "foreign-kid":
		raw = jwt(map[string]any{"alg": "RS256", "kid": "ec-1"}, m, rsaB)
	case "jwk-header":
		raw = jwt(map[string]any{"alg": "RS256", "jwk": jwk("rsa-1", &rsaB.PublicKey)}, m, rsaB)
	case "jku-header":
		raw = jwt(map[string]any{"alg": "RS256", "kid": "x", "jku": c.p.base + "/evil-keys", "x5u": c.p.base + "/evil-cert"}, m, rsaB)
	case "x5c-header":
		raw = jwt(map[string]any{"alg": "RS256", "kid": "rsa-1", "x5c": []string{"AAAA"}}, m, rsaB)
	case "alg-swap":
		in := j(map[string]any{"alg": "ES256", "kid": "rsa-1"}) + "." + j(m)
		raw = in + "." + b64.EncodeToString(sign("RS256", rsaA, in))
	case "alg-unsupported":
		raw = jwt(map[string]any{"alg": []string{"RS512", "PS256"}[g.Intn(2)], "kid": "rsa-1"}, m, rsaA)
	case "payload-swap", "scope-edit":
		parts := strings.Split(jwt(hd, map[string]any{"iss": c.p.issuer, "aud": c.aud, "exp": now + 600, c.idClaim: "low", c.scCl: "read"}, key), ".")
		if k == "scope-edit" {
			m[c.idClaim] = "low"
		}
		raw = parts[0] + "." + j(m) + "." + parts[2]
	case "bit":
		x := jwt(hd, m, key)
		for raw = x; means(raw) == means(x); { // another spelling of the same bytes is the same token
			b := []byte(x)
			if i := g.Intn(len(b)); b[i] != '.' {
				b[i] = "ABCDEFGHabcdefgh01234567"[g.Intn(24)]
			}
			raw = string(b)
		}
	case "cut":
		raw = jwt(hd, m, key)
		raw = raw[:len(raw)-3-g.Intn(60)]
	case "header-edit":
		parts := strings.Split(jwt(hd, m, key), ".")
		hd["extra"] = 1
		raw = j(hd) + "." + parts[1] + "." + parts[2]
	case "crit":
		hd["crit"], hd["made-up"] = []string{"made-up"}, true
		raw = jwt(hd, m, key)
	case "iss-slash":
		m["iss"] = c.p.issuer + "/"
	case "iss-other":
		m["iss"] = []any{"https://accounts.example.org", c.p.base + "/other", "", "http://" + strings.TrimPrefix(c.p.issuer, "http://") + ".evil"}[g.Intn(4)]
	case "iss-missing":
		delete(m, "iss")
	case "iss-case":
		m["iss"] = strings.ToUpper(c.p.issuer)
	case "iss-array":
		m["iss"] = []any{c.p.issuer}
	case "aud-other":
		m["aud"] = "other"
	case "aud-missing":
		delete(m, "aud")
	case "aud-prefix":
		m["aud"] = []any{c.aud + "-2", c.aud[:len(c.aud)-1], c.aud + " other", c.aud + ",other"}[g.Intn(4)]
	case "aud-list-other":
		m["aud"] = []any{"other", c.aud + "x", ""}
	case "aud-case":
		m["aud"] = strings.ToUpper(c.aud)
	case "aud-empty":
		m["aud"] = []any{"", []any{}, nil}[g.Intn(3)]
	case "aud-number":
		m["aud"] = 5
	case "aud-in-azp":
		m["aud"], m["azp"], m["client_id"] = "other", c.aud, c.aud
	case "exp-past":
		m["exp"] = now - 1 - int64(g.Intn(1e6))
	case "exp-just":
		m["exp"] = now - 2
	case "exp-missing":
		delete(m, "exp")
	case "exp-string":
		m["exp"] = "tomorrow"
	case "exp-zero":
		m["exp"] = 0
	case "exp-negative":
		m["exp"] = -now
	case "nbf-future":
		m["nbf"] = now + 400 + int64(g.Intn(1e5)) // beyond any tolerated clock difference
	case "id-missing":
		delete(m, c.idClaim)
	case "id-number":
		m[c.idClaim] = 12
	case "id-empty":
		m[c.idClaim] = ""
	case "id-array":
		m[c.idClaim] = []any{id}
	case "id-null":
		m[c.idClaim] = nil
	case "four-parts":
		raw = jwt(hd, m, key) + ".e30"
	case "two-parts":
		raw = j(hd) + "." + j(m)
	case "padded":
		p := strings.Split(jwt(hd, m, rsaAsOther(key)), ".")
		raw = p[0] + "==." + p[1] + "." + p[2]
	case "json":
		b, _ := json.Marshal(m)
		raw = string(b)
	case "not-json":
		in := j(hd) + "." + b64.EncodeToString([]byte("{not json"))
		raw = in + "." + b64.EncodeToString(sign(hd["alg"].(string), key, in))
	case "array-payload":
		raw = jwt(hd, []any{m}, key)
	case "null-payload":
		raw = jwt(hd, nil, key)
	case "quoted":
		raw = `"` + jwt(hd, m, key) + `"`
	case "twice":
		raw = jwt(hd, m, key) + "," + jwt(hd, m, key)
	case "no-scheme":
		t.raw = jwt(hd, m, key)
		return t
	case "basic-scheme":
		t.raw = "Basic " + jwt(hd, m, key)
		return t
	}
	if raw == "" {
		raw = jwt(hd, m, key)
	}
	t.raw = "Bearer " + raw
	return t
}

// means is what a token's parts decode to.
func means(t string) string {
	out := ""
	for _, p := range strings.Split(t, ".") {
		b, err := b64.DecodeString(p)
		out += fmt.Sprintf("%x %v.", b, err)
	}
	return out
}

// rsaAsOther is a key of the same kind that is not published.
func rsaAsOther(k any) any {
	if _, ok := k.(*rsa.PrivateKey); ok {
		return rsaB
	}
	return ecKey()
}

const root = "static-root"

func start(r *kit.Run, c conf) *srv.Server {
	s := srv.New("node")
	env := map[string]string{"HYPERCACHE_LOG_LEVEL": "error", "HYPERCACHE_REPLICATION": "1", "HYPERCACHE_OIDC_ISSUER": c.p.issuer, "HYPERCACHE_OIDC_AUDIENCE": c.aud, "NO_PROXY": "*"}
	if c.idClaim != "sub" {
		env["HYPERCACHE_OIDC_IDENTITY_CLAIM"] = c.idClaim
	}
	if c.scCl != "scope" {
		env["HYPERCACHE_OIDC_SCOPE_CLAIM"] = c.scCl
	}
	switch {
	case c.anon:
		f := filepath.Join(os.Getenv("VERIF_WORK"), "anon.yaml")
		_ = os.WriteFile(f, []byte("allow_anonymous: true\n"), 0o600)
		env["HYPERCACHE_AUTH_CONFIG"] = f
	case c.static:
		env["HYPERCACHE_AUTH_TOKEN"] = root
	}
	s.Run(env)
	if !s.Listening(30 * time.Second) {
		r.Inconclusive("the server does not come up: " + s.Log())
		s.Kill()
		return nil
	}
	return s
}

func (c conf) judge(r *kit.Run, s *srv.Server, t tok, rt srv.Route) bool {
	base := "http://" + s.API
	if rt.Port == "mgmt" {
		base = "http://" + s.Mgmt
	}
	id, sc, somebody := t.id, t.scopes, t.valid
	if t.raw == "Bearer "+root && c.static {
		id, sc, somebody = "default", []string{"read", "write", "admin"}, true
	}
	if !somebody && c.anon {
		id, sc, somebody = "anonymous", []string{"read", "write", "admin"}, true
	}
	rep, err := srv.Send(srv.Client, base, rt, "Authorization", t.raw)
	if err == srv.ErrHeader {
		return true
	}
	want := rt.Want(somebody, sc)
	got := rep.Status
	if want == 200 && (got == 404 && rt.Scope == "read" || got == 202) {
		got = 200
	}
	r.Add("requests", 1)
	if err != nil || got != want {
		r.ViolateWith(fmt.Sprintf("status:%s %d not %d", t.kind, got, want), map[string]any{"authorization": t.raw, "issuer": c.p.issuer, "audience": c.aud, "identity claim": c.idClaim, "scope claim": c.scCl},
			"%s with a %s token (%q, %v) is answered %d %.200q %v; %d expected %s", rt, t.kind, id, sc, rep.Status, rep.Body, err, want, s.Crashed())
		return false
	}
	r.Add(fmt.Sprintf("answered_%d", want), 1)
	if rt.Path == "/v1/me" && want == 200 {
		var m struct {
			ID     string
			Scopes []string
		}
		_ = json.Unmarshal(rep.Body, &m)
		if m.ID != id || !same(m.Scopes, sc) {
			r.ViolateWith("me:"+t.kind, map[string]any{"authorization": t.raw}, "the bearer of a %s token is %q with %v; the server says %s", t.kind, id, sc, rep.Body)
			return false
		}
		r.Add("identities", 1)
	}
	return true
}

func same(a, b []string) bool {
	return slices.Equal(slices.Compact(slices.Sorted(slices.Values(a))), slices.Compact(slices.Sorted(slices.Values(b))))
}

var me = srv.Route{Port: "api", Method: "GET", Path: "/v1/me", Scope: "read"}

func drawConf(g *rand.Rand, i int) conf {
	c := conf{aud: []string{"hypercache", "cache-1", "a"}[g.Intn(3)] + "-prod", idClaim: []string{"sub", "email", "preferred_username"}[g.Intn(3)], scCl: []string{"scope", "roles", "https://cache.example/scopes"}[g.Intn(3)]}
	algs := [][]string{{"RS256", "ES256"}, {"RS256"}, nil}[g.Intn(3)]
	c.p = newIDP([]string{"", "/realms/main"}[g.Intn(2)], algs)
	c.anon, c.static = i%5 == 4, i%2 == 1
	return c
}

func tokens(r *kit.Run) {
	if !r.Phase("tokens") {
		return
	}
	for i := 0; i < r.N(6, 40) && r.Violations() == 0; i++ {
		g := r.Rand("tokens", i)
		c := drawConf(g, i)
		s := start(r, c)
		if s == nil {
			c.p.Close()
			continue
		}
		for k := 0; k < r.N(260, 800) && r.Violations() == 0; k++ {
			t := c.draw(g)
			if g.Intn(30) == 0 {
				t = tok{kind: "static", raw: "Bearer " + root}
			} else if g.Intn(30) == 0 {
				t = tok{kind: "nothing"}
			}
			r.Seen("token", t.kind)
			if !c.judge(r, s, t, me) {
				break
			}
			routes := srv.Routes(fmt.Sprint("k", k))
			for range 3 {
				c.judge(r, s, t, routes[g.Intn(len(routes))])
			}
		}
		if n := c.p.foreign.Load(); n > 0 {
			r.Violate("fetch", "%d requests to addresses only a token named", n)
		}
		if cr := s.Crashed(); cr != "" {
			r.Violate("crash", "the server died: %s", cr)
		}
		s.Kill()
		c.p.Close()
		r.Add("key_fetches", c.p.fetches.Load())
		r.Case(fmt.Sprintf("%s %s algs=%v anon=%v static=%v", c.idClaim, c.scCl, c.p.algs, c.anon, c.static), true)
	}
}

// rotation: keys come and go at the provider; the provider itself comes and goes.
func rotation(r *kit.Run) {
	if !r.Phase("rotation") {
		return
	}
	for i := 0; i < r.N(2, 8) && r.Violations() == 0; i++ {
		g := r.Rand("rotation", i)
		c := drawConf(g, 0)
		s := start(r, c)
		if s == nil {
			c.p.Close()
			continue
		}
		with := func(kid string, k any) tok {
			m, id, sc := c.claims(g)
			return tok{"good", "Bearer " + jwt(map[string]any{"alg": "RS256", "kid": kid}, m, k), true, id, sc, false}
		}
		stale := func(t tok, kind string) tok { t.valid, t.kind = false, kind; return t }
		if g.Intn(2) == 0 {
			c.judge(r, s, with("rsa-1", rsaA), me)
		}
		c.judge(r, s, stale(with("rsa-2", rsaB), "not yet published"), me)
		c.p.down.Store(true)
		for range 3 {
			c.judge(r, s, stale(with("rsa-2", rsaB), "provider down"), me)
		}
		c.p.down.Store(false)
		c.p.mu.Lock()
		c.p.keys["rsa-2"] = rsaB
		delete(c.p.keys, "rsa-1")
		c.p.mu.Unlock()
		c.judge(r, s, with("rsa-2", rsaB), me)
		c.judge(r, s, stale(with("rsa-1", rsaA), "withdrawn key"), me)
		c.judge(r, s, stale(with("rsa-2", rsaA), "withdrawn key, new name"), me)
		// a token wears out while it is used
		m, id, _ := c.claims(g)
		until := time.Now().Unix() + 2
		m["exp"], m[c.scCl] = until, "read"
		t := tok{"short", "Bearer " + jwt(map[string]any{"alg": "RS256", "kid": "rsa-2"}, m, rsaB), true, id, []string{"read"}, false}
		if time.Now().Unix() < until-1 {
			rep, err := srv.Send(srv.Client, "http://"+s.API, me, "Authorization", t.raw)
			if time.Now().Unix() < until && (err != nil || rep.Status != 200) {
				r.Violate("short", "a token is answered %d before it expires", rep.Status)
			}
		}
		time.Sleep(time.Until(time.Unix(until+1, 0)))
		c.judge(r, s, stale(t, "worn out"), me)
		if cr := s.Crashed(); cr != "" {
			r.Violate("crash", "the server died: %s", cr)
		}
		s.Kill()
		c.p.Close()
		r.Case(fmt.Sprintf("rotation %d", i), true)
	}
}

// together: bearers of different tokens at the same time are never taken for each other.
func together(r *kit.Run) {
	if !r.Phase("together") {
		return
	}
	for i := 0; i < r.N(1, 5) && r.Violations() == 0; i++ {
		c := drawConf(r.Rand("together", i), 0)
		s := start(r, c)
		if s == nil {
			c.p.Close()
			continue
		}
		var wg sync.WaitGroup
		for w := range 8 {
			g := r.Rand("together", i, w)
			wg.Go(func() {
				for k := 0; k < r.N(80, 400) && r.Violations() == 0; k++ {
					c.judge(r, s, c.draw(g), me)
				}
			})
		}
		wg.Wait()
		if cr := s.Crashed(); cr != "" {
			r.Violate("crash", "the server died: %s", cr)
		}
		s.Kill()
		c.p.Close()
		r.Case(fmt.Sprintf("together %d", i), true)
	}
}
