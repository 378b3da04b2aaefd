// C09: a request is authenticated exactly as the credential it presents.
package main

import (
	"fmt"
	"sync"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/vh/authref"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

func main() {
	kit.Main("C09", "random policies (tokens sharing prefixes, users, certificate subjects, a verifier hook, anonymous and plaintext-basic switches) and random credentials (valid, truncated, case-altered, swapped, malformed), "+
		"sent in process and over real plaintext/TLS connections with verified and forged client certificates; the admitted identity is compared with an independent statement of who the request is; concurrent requests under the race detector; non-trivial = a credential was presented", run)
}

func check(r *kit.Run, where string, w *authref.World, c authref.Cred, verified bool, a authref.Answer, i int) {
	id, ok := w.Expect(c, verified)
	cls := fmt.Sprintf("%s/tls=%v/cert=%v/hook=%v", c.Kind, c.TLS, c.Cert != "", c.Hook != "")
	r.Case(fmt.Sprintf("%s:%d:%s:%s:%s:%s", where, i, c.Header, c.Cert, c.Hook, cls), c.Header != "" || c.Cert != "" || c.Hook != "")
	r.Seen("credential", c.Kind)
	desc := fmt.Sprintf("%s header=%.80q tls=%v cert=%q(verified=%v) hook=%q; policy: %d tokens, %d users, %d certs, hook=%v anon=%v plainBasic=%v", c.Kind, c.Header, c.TLS, c.Cert, verified, c.Hook,
		len(w.Policy.Tokens), len(w.Policy.BasicIdentities), len(w.Policy.CertIdentities), w.Policy.ServerVerify != nil, w.Policy.AllowAnonymous, w.Policy.AllowBasicWithoutTLS)
	if c.Unsure {
		// The header's scheme spelling is not specified: admitted as its owner or treated as absent.
		return
	}
	admitted := a.Status == 200
	switch {
	case ok && !admitted:
		r.ViolateWith("rejected:"+c.Kind, desc, "%s: %s is %q but got status %d", where, desc, id, a.Status)
	case !ok && admitted:
		r.ViolateWith("admitted:"+c.Kind, desc, "%s: %s admitted as %q, should be nobody", where, desc, a.ID)
	case ok && (a.ID != id || !a.HasID):
		r.ViolateWith("identity:"+c.Kind, desc, "%s: %s is %q but was admitted as %q", where, desc, id, a.ID)
	case !ok && a.Status != 401:
		r.ViolateWith("status:"+c.Kind, desc, "%s: %s refused with %d instead of 401", where, desc, a.Status)
	}
	if admitted {
		r.Seen("admitted-as", map[bool]string{true: "anonymous", false: c.Kind}[a.ID == "anonymous"])
	} else {
		r.Add("refused", 1)
	}
}

func run(r *kit.Run) {
	if r.Phase("direct") {
		for i := 0; i < r.N(200, 6000); i++ {
			rng := r.Rand("direct", i)
			w := authref.NewWorld(rng)
			s := authref.NewServer(w.Policy)
			for j := 0; j < 60; j++ {
				c := w.NewCred(rng)
				c.TLS, c.Cert = false, ""
				path := "/any"
				before, hooks := s.Reached.Load(), w.HookCalls.Load()
				a := s.Direct(path, c)
				check(r, "direct", w, c, false, a, i)
				if a.Status != 200 && s.Reached.Load() != before {
					r.Violate("side-effect", "the handler ran although the request was refused with %d", a.Status)
				}
				if id, ok := w.Expect(c, false); ok && id != "anonymous" && w.Scopes[id] != nil && len(w.Hook) > 0 && w.HookCalls.Load() != hooks && c.Kind == "token" && !c.Unsure {
					r.Violate("precedence", "the verifier was consulted although a configured token matched")
				}
				// A route without auth must not inherit anybody's identity.
				if j%10 == 0 {
					if o := s.Direct("/open", authref.Cred{}); o.HasID {
						r.Violate("leak", "a request on an unauthenticated route carries identity %q", o.ID)
					}
				}
			}
			if n := len(w.Policy.Tokens) + len(w.Policy.BasicIdentities) + len(w.Policy.CertIdentities); w.Policy.IsConfigured() != (n > 0 || w.Policy.ServerVerify != nil) {
				r.Violate("configured", "a policy with %d credentials (verifier: %v) says configured=%v", n, w.Policy.ServerVerify != nil, w.Policy.IsConfigured())
			}
			if i < 2 {
				r.Sample("policy", map[string]any{"tokens": len(w.Policy.Tokens), "users": len(w.Policy.BasicIdentities), "certs": len(w.Policy.CertIdentities), "anonymous": w.Policy.AllowAnonymous})
			}
		}
		// A policy is configured when any one class of credentials is.
		for m := 0; m < 16; m++ {
			var p httpauth.Policy
			if m&1 != 0 {
				p.Tokens = []httpauth.TokenIdentity{{ID: "t", Token: "tok", Scopes: []httpauth.Scope{httpauth.ScopeRead}}}
			}
			if m&2 != 0 {
				p.BasicIdentities = []httpauth.BasicIdentity{{Username: "u", ID: "u"}}
			}
			if m&4 != 0 {
				p.CertIdentities = []httpauth.CertIdentity{{SubjectCN: "c"}}
			}
			if m&8 != 0 {
				p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) { return httpauth.Identity{}, nil }
			}
			r.Case(fmt.Sprint("configured:", m), true)
			if p.IsConfigured() != (m != 0) {
				r.Violate("configured", "credential classes %04b present (tokens, passwords, certificates, verifier): configured=%v", m, p.IsConfigured())
			}
		}
		// Zero and near-zero policies admit nobody.
		for _, p := range []httpauth.Policy{{}, {AllowBasicWithoutTLS: true}, {Tokens: []httpauth.TokenIdentity{}}} {
			s := authref.NewServer(p)
			for _, h := range []string{"", "Bearer ", "Bearer", "Basic Og==", "Bearer anonymous", "Bearer default"} {
				for _, path := range []string{"/any", "/s/read", "/s/admin", "/v/write"} {
					a := s.Direct(path, authref.Cred{Header: h})
					r.Case("zero:"+h+path, true)
					if a.Status != 401 {
						r.Violate("zero-policy", "a policy without credentials answered %d to %q on %s", a.Status, h, path)
					}
				}
			}
			if p.IsConfigured() {
				r.Violate("configured", "a policy without credentials claims to be configured")
			}
		}
	}
	if !r.Phase("wire") && !r.Phase("concurrent") {
		return
	}
	pki := authref.NewPKI()
	if r.Phase("wire") {
		for i := 0; i < r.N(40, 1000); i++ {
			rng := r.Rand("wire", i)
			w := authref.NewWorld(rng)
			s := authref.NewServer(w.Policy)
			if err := s.Listen(pki); err != nil {
				panic(err)
			}
			for j := 0; j < 40; j++ {
				c := w.NewCred(rng)
				loose := c.TLS && rng.Intn(3) == 0
				a, err := s.Wire(pki, "/any", c, loose)
				if err != nil {
					r.Inconclusive("request failed: " + fmt.Sprintf("%T", err))
					continue
				}
				check(r, map[bool]string{true: "wire-unverified", false: "wire"}[loose], w, c, c.Cert != "" && !loose, a, i)
				r.Add("wire_requests", 1)
			}
			s.Close()
		}
	}
	if r.Phase("concurrent") {
		for i := 0; i < r.N(8, 150); i++ {
			rng := r.Rand("conc", i)
			w := authref.NewWorld(rng)
			for len(w.Policy.Tokens) < 2 {
				w = authref.NewWorld(rng)
			}
			s := authref.NewServer(w.Policy)
			if err := s.Listen(pki); err != nil {
				panic(err)
			}
			var wg sync.WaitGroup
			for g := 0; g < 12; g++ {
				grng := r.Rand("conc", i, g)
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for j := 0; j < 40; j++ {
						c := w.NewCred(grng)
						if g%3 == 0 { // in process
							c.TLS, c.Cert = false, ""
							check(r, "concurrent", w, c, false, s.Direct("/any", c), i)
							continue
						}
						a, err := s.Wire(pki, "/any", c, false)
						if err != nil {
							r.Inconclusive("request failed")
							continue
						}
						check(r, "concurrent", w, c, c.Cert != "", a, i)
						r.Add("concurrent_requests", 1)
					}
				}(g)
			}
			wg.Wait()
			s.Close()
		}
	}
}
