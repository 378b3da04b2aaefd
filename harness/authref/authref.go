// Package authref is the reference side of the auth monitors: random policies, random
// credentials, an independent statement of who a request is, and servers that echo what the
// policy decided.
package authref

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	fiber "github.com/gofiber/fiber/v3"
	"github.com/valyala/fasthttp"
	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

// Cred is what one request presents.
type Cred struct {
	Kind   string // generator's label
	Header string // Authorization value, "" for none
	Cert   string // client certificate CN, "" for none
	Hook   string // value the ServerVerify hook looks at
	TLS    bool
	Unsure bool // outcome not asserted (spec is silent), only sanity
}

// World is a policy with everything needed to predict it.
type World struct {
	Policy    httpauth.Policy
	Passwords map[string]string // username -> plaintext
	Hook      map[string]httpauth.Identity
	HookCalls atomic.Int64
	Scopes    map[string][]httpauth.Scope // identity ID -> granted
}

// AllScopes are the scopes used in generated grants (including one the package does not name).
var AllScopes = []httpauth.Scope{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin, "metrics"}

// CNs is the pool of certificate subjects.
// "corp-ca" and "corp-issuing" also name the authorities the client certificates chain to.
var CNs = []string{"svc-a", "svc-b", "SVC-A", "svc-a.internal", "*", "svc", "corp-ca", "corp-issuing", "svc-a "}

// NoCN is a client certificate without a common name (its alternative names are configured CNs).
const NoCN = "(none)"

func scopes(rng *rand.Rand) []httpauth.Scope {
	var out []httpauth.Scope
	for _, s := range AllScopes {
		if rng.Intn(2) == 0 {
			out = append(out, s)
		}
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

var hashCache sync.Map

// Hash is a cheap bcrypt hash of a password (cached).
func Hash(pw string) string {
	if h, ok := hashCache.Load(pw); ok {
		return h.(string)
	}
	h, err := bcrypt.GenerateFromPassword([]byte(pw), bcrypt.MinCost)
	if err != nil {
		panic(err)
	}
	hashCache.Store(pw, string(h))
	return string(h)
}

// Token is a random secret; several families share prefixes so truncation is interesting.
func Token(rng *rand.Rand, i int) string {
	switch rng.Intn(8) {
	case 6:
		return fmt.Sprintf([]string{"$HOME%d", "${PATH}%d", "a$$b%d", "%%41%%s%%%d", `tail\n\%d`, "#%d", "{{.%d}}", "!t*&|>`@%d", "'\"%d\"'", "~%d", "a,b;c=%d", "a:b: %d #x"}[rng.Intn(12)], i)
	case 7:
		return []string{"0%d7", "1e%d", "0x1F%d", "yes", "true", "null", "~", "2001-01-0%d", "t\u00f6k\u2603-%d"}[rng.Intn(9)]
	case 0:
		return fmt.Sprintf("tok-%d", i)
	case 1:
		return fmt.Sprintf("tok-%d-%s", i, strings.Repeat("x", 100+rng.Intn(900)))
	case 2:
		return fmt.Sprintf("AbC%ddEf", i)
	case 3:
		return fmt.Sprintf("t0k=+/._~%d", i)
	case 4:
		return fmt.Sprintf("%c%d", 'a'+rune(rng.Intn(26)), i)
	}
	return fmt.Sprintf("with space %d", i)
}

var pws = []string{"hunter2", "pa:ss:word", "Hunter2", "p", "  spaced ", "пароль", strings.Repeat("k", 60), "hunter2\x01"}

// NewWorld draws a policy.
func NewWorld(rng *rand.Rand) *World {
	w := &World{Passwords: map[string]string{}, Hook: map[string]httpauth.Identity{}, Scopes: map[string][]httpauth.Scope{}}
	nt, nu, nc := rng.Intn(5), rng.Intn(4), rng.Intn(4)
	seen := map[string]bool{}
	for i := 0; i < nt; i++ {
		t := httpauth.TokenIdentity{ID: fmt.Sprintf("tok-id-%d", i), Token: Token(rng, i), Scopes: scopes(rng)}
		if i > 0 && rng.Intn(4) == 0 {
			t.Token = w.Policy.Tokens[i-1].Token + "1" // one is a prefix of the other
		}
		if seen[t.Token] {
			continue
		}
		seen[t.Token] = true
		w.Policy.Tokens = append(w.Policy.Tokens, t)
		w.Scopes[t.ID] = t.Scopes
	}
	for i := 0; i < nu; i++ {
		u := []string{"alice", "bob", "Alice", "ünï", "al"}[(i+rng.Intn(2)*2)%5]
		if _, dup := w.Passwords[u]; dup {
			continue
		}
		pw := pws[rng.Intn(len(pws))]
		b := httpauth.BasicIdentity{Username: u, ID: "user-id-" + fmt.Sprint(i), PasswordBcrypt: []byte(Hash(pw)), Scopes: scopes(rng)}
		w.Passwords[u] = pw
		w.Policy.BasicIdentities = append(w.Policy.BasicIdentities, b)
		w.Scopes[b.ID] = b.Scopes
	}
	for i := 0; i < nc; i++ {
		cn := CNs[rng.Intn(len(CNs))]
		if _, dup := w.Scopes[cn]; dup {
			continue
		}
		c := httpauth.CertIdentity{SubjectCN: cn, Scopes: scopes(rng)}
		w.Policy.CertIdentities = append(w.Policy.CertIdentities, c)
		w.Scopes[cn] = c.Scopes
	}
	if rng.Intn(3) == 0 {
		for i := 0; i < 2; i++ {
			id := httpauth.Identity{ID: fmt.Sprintf("hook-id-%d", i), Scopes: scopes(rng)}
			w.Hook[fmt.Sprintf("good%d", i)] = id
			w.Scopes[id.ID] = id.Scopes
		}
		w.Policy.ServerVerify = func(c fiber.Ctx) (httpauth.Identity, error) {
			w.HookCalls.Add(1)
			if id, ok := w.Hook[c.Get("X-Hook")]; ok {
				return id, nil
			}
			// A verifier may fail and still hand back a half-filled identity.
			return httpauth.Identity{ID: "hook-refused", Scopes: AllScopes}, errors.New("no")
		}
	}
	w.Policy.AllowAnonymous = rng.Intn(6) == 0
	w.Policy.AllowBasicWithoutTLS = rng.Intn(2) == 0
	w.Scopes["anonymous"] = []httpauth.Scope{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin}
	return w
}

func basic(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

func flip(rng *rand.Rand, s string) string {
	b := []byte(s)
	for try := 0; try < 10; try++ {
		i := rng.Intn(len(b))
		switch {
		case b[i] >= 'a' && b[i] <= 'z':
			b[i] -= 32
			return string(b)
		case b[i] >= 'A' && b[i] <= 'Z':
			b[i] += 32
			return string(b)
		}
	}
	return s
}

// NewCred draws a credential relevant to the world.
func (w *World) NewCred(rng *rand.Rand) Cred {
	c := Cred{Kind: "none", TLS: rng.Intn(2) == 0}
	p := w.Policy
	switch k := rng.Intn(20); {
	case k < 7 && len(p.Tokens) > 0:
		t := p.Tokens[rng.Intn(len(p.Tokens))].Token
		switch rng.Intn(14) {
		case 0, 1, 2, 3:
			c.Kind, c.Header = "token", "Bearer "+t
		case 4:
			c.Kind, c.Header = "token+suffix", "Bearer "+t+"x"
		case 5:
			c.Kind, c.Header = "token-truncated", "Bearer "+t[:len(t)-1]
		case 6:
			c.Kind, c.Header = "token-case", "Bearer "+flip(rng, t)
		case 7:
			c.Kind, c.Header = "token-bare", t
		case 8:
			c.Kind, c.Header = "token-scheme", []string{"Token ", "Basic ", "BearerX ", "Digest ", "Bearer"}[rng.Intn(5)]+t
		case 9:
			c.Kind, c.Header = "bearer-empty", "Bearer "
		case 10:
			c.Kind, c.Header = "token-list", "Bearer "+t+", Bearer "+t
		case 11:
			c.Kind, c.Header = "token-quoted", "Bearer \""+t+"\""
		case 12:
			b := []byte(t)
			b[rng.Intn(len(b))] ^= 1
			c.Kind, c.Header = "token-bit", "Bearer "+string(b)
		case 13:
			c.Kind, c.Header, c.Unsure = "scheme-case", "bearer "+t, true
		}
	case k < 14 && len(p.BasicIdentities) > 0:
		b := p.BasicIdentities[rng.Intn(len(p.BasicIdentities))]
		pw := w.Passwords[b.Username]
		switch rng.Intn(15) {
		case 0, 1, 2, 3:
			c.Kind, c.Header = "basic", basic(b.Username, pw)
		case 4:
			c.Kind, c.Header = "basic-wrong", basic(b.Username, pw+"x")
		case 5:
			o := p.BasicIdentities[rng.Intn(len(p.BasicIdentities))]
			c.Kind, c.Header = "basic-other", basic(b.Username, w.Passwords[o.Username])
		case 6:
			c.Kind, c.Header = "basic-user-case", basic(flip(rng, b.Username), pw)
		case 7:
			c.Kind, c.Header = "basic-empty-pw", basic(b.Username, "")
		case 8:
			c.Kind, c.Header = "basic-empty-user", basic("", pw)
		case 9:
			c.Kind, c.Header = "basic-nocolon", "Basic "+base64.StdEncoding.EncodeToString([]byte(b.Username+pw))
			c.Unsure = strings.Contains(pw, ":")
		case 10:
			h := basic(b.Username, pw)
			c.Kind, c.Header = "basic-cut", h[:len(h)-1-rng.Intn(5)]
		case 11:
			c.Kind, c.Header = "basic-hash", basic(b.Username, string(b.PasswordBcrypt))
		case 12:
			c.Kind, c.Header = "basic-pw-case", basic(b.Username, flip(rng, pw))
		case 13:
			c.Kind, c.Header = "basic-unknown", basic("mallory", pw)
		case 14:
			c.Kind, c.Header, c.Unsure = "basic-scheme-case", "basic"+basic(b.Username, pw)[5:], true
		}
	case k < 16:
		c.Kind, c.Header = "junk", []string{"Bearer", "Basic", "Basic ", "Basic =", "Basic Og==", "Bearer  ", "\x01\x02", "Negotiate x", strings.Repeat("A", 3000), "Bearer hook-id-0", "Bearer anonymous"}[rng.Intn(11)]
	}
	if rng.Intn(3) == 0 {
		c.TLS, c.Cert = true, append(CNs[:len(CNs):len(CNs)], NoCN)[rng.Intn(len(CNs)+1)]
	}
	if rng.Intn(3) == 0 {
		c.Hook = []string{"good0", "good1", "bad", "good", "GOOD0"}[rng.Intn(5)]
	}
	c.Header = strings.Trim(c.Header, " \t") // what any HTTP stack does to a field value
	return c
}

// Expect states who the request is, or that it is nobody.
func (w *World) Expect(c Cred, certVerified bool) (string, bool) {
	for _, t := range w.Policy.Tokens {
		if strings.TrimRight("Bearer "+t.Token, " \t") == c.Header && c.Header != "Bearer" {
			return t.ID, true
		}
	}
	if rest, ok := strings.CutPrefix(c.Header, "Basic "); ok && (c.TLS || w.Policy.AllowBasicWithoutTLS) {
		if raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(rest)); err == nil {
			if u, p, ok := strings.Cut(string(raw), ":"); ok {
				for _, b := range w.Policy.BasicIdentities {
					if b.Username == u && w.Passwords[u] == p {
						return b.ID, true
					}
				}
			}
		}
	}
	if c.TLS && certVerified {
		for _, ci := range w.Policy.CertIdentities {
			if ci.SubjectCN == c.Cert && c.Cert != "" {
				return ci.SubjectCN, true
			}
		}
	}
	if w.Policy.ServerVerify != nil {
		if id, ok := w.Hook[c.Hook]; ok {
			return id.ID, true
		}
	}
	if w.Policy.AllowAnonymous {
		return "anonymous", true
	}
	return "", false
}

// Answer is what the server observed about one request.
type Answer struct {
	Status int
	ID     string
	Scopes []httpauth.Scope
	Caps   []string
	HasID  bool
}

// Server echoes the policy's decision on /any and /s/<scope> (middleware) and /v/<scope> (Verify).
type Server struct {
	App     *fiber.App
	Reached atomic.Int64 // handler executions
	addr    string
	tlsAddr string
	loose   string // TLS that asks for, but does not verify, client certificates
	lns     []net.Listener
	trs     map[string]*http.Transport
	mu      sync.Mutex
}

// NewServer builds the app for a policy.
func NewServer(p httpauth.Policy) *Server {
	s := &Server{trs: map[string]*http.Transport{}}
	app := fiber.New(fiber.Config{ReadTimeout: 20 * time.Second})
	echo := func(c fiber.Ctx) error {
		s.Reached.Add(1)
		a := Answer{Status: 200}
		if id, ok := c.Locals(httpauth.IdentityKey).(httpauth.Identity); ok {
			a.ID, a.Scopes, a.HasID, a.Caps = id.ID, append([]httpauth.Scope{}, id.Scopes...), true, id.Capabilities()
		}
		return c.JSON(a)
	}
	app.Get("/open", echo)
	app.Get("/any", p.Middleware(""), echo)
	for _, sc := range append([]httpauth.Scope{"unheard-of"}, AllScopes...) {
		sc := sc
		app.Get("/s/"+string(sc), p.Middleware(sc), echo)
		app.Get("/v/"+string(sc), func(c fiber.Ctx) error {
			if err := p.Verify(c, sc); err != nil {
				return err
			}
			return echo(c)
		})
	}
	s.App = app
	return s
}

// Direct runs one request through the app in process (plaintext).
func (s *Server) Direct(path string, c Cred) Answer {
	var fc fasthttp.RequestCtx
	fc.Init(&fasthttp.Request{}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, nil)
	fc.Request.Header.SetMethod("GET")
	fc.Request.SetRequestURI(path)
	fc.Request.Header.SetHost("x")
	if c.Header != "" {
		fc.Request.Header.Set("Authorization", c.Header)
	}
	if c.Hook != "" {
		fc.Request.Header.Set("X-Hook", c.Hook)
	}
	s.App.Handler()(&fc)
	a := Answer{}
	_ = json.Unmarshal(fc.Response.Body(), &a)
	a.Status = fc.Response.StatusCode()
	return a
}

// Listen starts real listeners.
func (s *Server) Listen(pki *PKI) error {
	srv, loose := pki.serverConfig(tls.VerifyClientCertIfGiven), pki.serverConfig(tls.RequestClientCert)
	for i := 0; i < 3; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err
		}
		switch i {
		case 0:
			s.addr = ln.Addr().String()
		case 1:
			s.tlsAddr = ln.Addr().String()
			ln = tls.NewListener(ln, srv)
		case 2:
			s.loose = ln.Addr().String()
			ln = tls.NewListener(ln, loose)
		}
		s.lns = append(s.lns, ln)
		go func() { _ = s.App.Server().Serve(ln) }()
	}
	_ = s.App.Handler() // finishes route initialisation
	return nil
}

// Close stops the listeners.
func (s *Server) Close() {
	s.mu.Lock()
	for _, t := range s.trs {
		t.CloseIdleConnections()
	}
	s.mu.Unlock()
	for _, l := range s.lns {
		l.Close()
	}
	_ = s.App.ShutdownWithTimeout(2 * time.Second)
}

// Wire sends one request over the network; looseTLS uses the listener that does not verify
// client certificates (so certificates prove nothing there).
func (s *Server) Wire(pki *PKI, path string, c Cred, looseTLS bool) (Answer, error) {
	base, key := "http://"+s.addr, "plain"
	if c.TLS {
		base, key = "https://"+s.tlsAddr, "tls/"+c.Cert
		if looseTLS {
			base, key = "https://"+s.loose, "loose/"+c.Cert
		}
	}
	s.mu.Lock()
	tr := s.trs[key]
	if tr == nil {
		tr = &http.Transport{MaxIdleConnsPerHost: 32}
		if c.TLS {
			cfg := &tls.Config{RootCAs: pki.Pool, ServerName: "localhost"}
			if c.Cert != "" {
				cert := pki.Clients[c.Cert]
				if looseTLS {
					cert = pki.Forged[c.Cert]
				}
				// Always present it, even when the CA list does not match.
				cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
			}
			tr.TLSClientConfig = cfg
		}
		s.trs[key] = tr
	}
	s.mu.Unlock()
	req, err := http.NewRequest(http.MethodGet, base+path, nil)
	if err != nil {
		return Answer{}, err
	}
	if c.Header != "" {
		req.Header.Set("Authorization", c.Header)
	}
	if c.Hook != "" {
		req.Header.Set("X-Hook", c.Hook)
	}
	resp, err := tr.RoundTrip(req)
	if err != nil {
		return Answer{}, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return Answer{}, err
	}
	a := Answer{}
	_ = json.Unmarshal(b, &a)
	a.Status = resp.StatusCode
	return a, nil
}

// PKI is a CA with server, client and forged (same CN, wrong CA) certificates.
type PKI struct {
	Pool    *x509.CertPool
	Root    *x509.Certificate
	Server  tls.Certificate
	Clients map[string]tls.Certificate
	Forged  map[string]tls.Certificate
}

func (p *PKI) serverConfig(m tls.ClientAuthType) *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{p.Server}, ClientAuth: m, ClientCAs: p.Pool}
}

// NewPKI makes certificates for every CN of the pool.
func NewPKI() *PKI {
	p := &PKI{Pool: x509.NewCertPool(), Clients: map[string]tls.Certificate{}, Forged: map[string]tls.Certificate{}}
	serial := int64(1)
	mkCA := func(cn string, up *x509.Certificate, uk *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey) {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		serial++
		subject := pkix.Name{CommonName: cn, Organization: []string{"svc-b"}, OrganizationalUnit: []string{"svc"}, SerialNumber: "svc-b"}
		if cn == NoCN {
			subject.CommonName = ""
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: subject, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		if up == nil {
			up, uk = t, k
		}
		der, _ := x509.CreateCertificate(crand.Reader, t, up, &k.PublicKey, uk)
		c, _ := x509.ParseCertificate(der)
		return c, k
	}
	leaf := func(cn string, ca *x509.Certificate, ck *ecdsa.PrivateKey) tls.Certificate {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		serial++
		subject := pkix.Name{CommonName: cn, Organization: []string{"svc-b"}, OrganizationalUnit: []string{"svc"}, SerialNumber: "svc-b"}
		if cn == NoCN {
			subject.CommonName = ""
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: subject, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
			KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth},
			DNSNames: []string{"localhost", "svc-a", "svc-a.internal"}, EmailAddresses: []string{"svc-b"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
		der, err := x509.CreateCertificate(crand.Reader, t, ca, &k.PublicKey, ck)
		if err != nil {
			panic(err)
		}
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	}
	ca, ck := mkCA("corp-ca", nil, nil)
	mid, mk := mkCA("corp-issuing", ca, ck)
	p.Pool.AddCert(ca)
	p.Root = ca
	p.Server = leaf("server", ca, ck)
	evil, ek := mkCA("corp-ca", nil, nil)
	for i, cn := range append(CNs[:len(CNs):len(CNs)], NoCN) {
		if i%2 == 0 {
			p.Clients[cn] = leaf(cn, ca, ck)
		} else { // through an intermediate, sent along with the leaf
			c := leaf(cn, mid, mk)
			c.Certificate = append(c.Certificate, mid.Raw)
			p.Clients[cn] = c
		}
		p.Forged[cn] = leaf(cn, evil, ek)
	}
	return p
}
