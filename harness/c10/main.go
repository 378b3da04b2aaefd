// C10: access needs the scope the route requires.
package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sync"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/vh/authref"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

func main() {
	kit.Main("C10", "random policies granting random subsets of scopes (empty, single, custom) to tokens, users, certificates and verifier identities; each credential is first resolved on a scope-free route, then sent to routes requiring every scope (middleware and direct gate); "+
		"expected 200 iff granted, 403 authenticated without grant, 401 unauthenticated, handler reached only on 200; reported capabilities compared with the grants; non-trivial = scoped route", run)
}

var routes = append([]httpauth.Scope{"unheard-of"}, authref.AllScopes...)

func judge(r *kit.Run, w *authref.World, who authref.Answer, sc httpauth.Scope, path string, a authref.Answer, ran bool, c authref.Cred, i int) {
	r.Case(fmt.Sprintf("%d:%s:%s:%s:%s:%s", i, path, c.Header, c.Cert, c.Hook, c.Kind), true)
	want := 401
	if who.Status == 200 {
		granted, known := w.Scopes[who.ID]
		if !known {
			r.Violate("unknown-identity", "admitted as %q, which the policy does not declare", who.ID)
			return
		}
		want = 403
		if slices.Contains(granted, sc) {
			want = 200
		}
	}
	r.Seen("expected", fmt.Sprint(want))
	if a.Status != want {
		r.Violate(fmt.Sprintf("scope:%d-for-%d", a.Status, want), "%s with %s %.60q (cert %q hook %q) resolved to %q (status %d) granted %v: got %d, want %d", path, c.Kind, c.Header, c.Cert, c.Hook, who.ID, who.Status, w.Scopes[who.ID], a.Status, want)
	}
	if ran && want != 200 {
		r.Violate("handler-ran", "%s: handler ran although access must be refused with %d", path, want)
	}
	if a.Status == 200 && a.ID != who.ID {
		r.Violate("identity-differs", "%s: identity %q differs from %q on the scope-free route", path, a.ID, who.ID)
	}
}

func caps(r *kit.Run, w *authref.World, a authref.Answer) {
	if a.Status != 200 {
		return
	}
	g := w.Scopes[a.ID]
	if len(a.Scopes) != len(g) || len(a.Caps) != len(g) {
		r.Violate("capabilities", "identity %q granted %v reports scopes %v capabilities %v", a.ID, g, a.Scopes, a.Caps)
		return
	}
	for _, s := range g {
		if !slices.Contains(a.Scopes, s) || !slices.Contains(a.Caps, "cache."+string(s)) {
			r.Violate("capabilities", "identity %q granted %v reports scopes %v capabilities %v", a.ID, g, a.Scopes, a.Caps)
			return
		}
	}
}

func run(r *kit.Run) {
	if r.Phase("identity") {
		for i := 0; i < r.N(2000, 20000); i++ {
			rng := r.Rand("id", i)
			var id httpauth.Identity
			have := map[string]bool{}
			for _, s := range authref.AllScopes {
				if rng.Intn(2) == 0 {
					id.Scopes = append(id.Scopes, s)
					have[string(s)] = true
				}
			}
			for _, s := range []string{"read", "write", "admin", "metrics", "", "Read", "READ", "rea", "readx", "cache.read", "*", "write,read"} {
				r.Case(fmt.Sprintf("id:%v:%s", id.Scopes, s), s != "")
				if id.HasScope(httpauth.Scope(s)) != have[s] {
					r.Violate("has-scope", "scopes %v: HasScope(%q) = %v", id.Scopes, s, !have[s])
				}
				if id.HasCapability("cache."+s) != have[s] {
					r.Violate("has-capability", "scopes %v: HasCapability(%q) = %v", id.Scopes, "cache."+s, !have[s])
				}
				if s != "cache.read" && id.HasCapability(s) {
					r.Violate("has-capability", "scopes %v: HasCapability(%q) = true", id.Scopes, s)
				}
			}
			if id.Capabilities() == nil {
				r.Violate("capabilities-nil", "Capabilities returned nil for %v", id.Scopes)
			}
		}
	}
	if r.Phase("direct") {
		for i := 0; i < r.N(60, 3000); i++ {
			rng := r.Rand("direct", i)
			w := authref.NewWorld(rng)
			s := authref.NewServer(w.Policy)
			for j := 0; j < 14; j++ {
				c := w.NewCred(rng)
				c.TLS, c.Cert = false, ""
				who := s.Direct("/any", c)
				caps(r, w, who)
				for _, sc := range routes {
					for _, pre := range []string{"/s/", "/v/"} {
						b := s.Reached.Load()
						a := s.Direct(pre+string(sc), c)
						judge(r, w, who, sc, pre+string(sc), a, s.Reached.Load() != b, c, i)
					}
				}
			}
			if i < 2 {
				r.Sample("grants", w.Scopes)
			}
		}
	}
	if r.Phase("shared-names") {
		for i := 0; i < r.N(150, 6000); i++ {
			sharedNames(r, r.Rand("shared", i), i)
		}
	}
	if r.Phase("wire") {
		pki := authref.NewPKI()
		for i := 0; i < r.N(20, 500); i++ {
			rng := r.Rand("wire", i)
			w := authref.NewWorld(rng)
			s := authref.NewServer(w.Policy)
			if err := s.Listen(pki); err != nil {
				panic(err)
			}
			for j := 0; j < 10; j++ {
				c := w.NewCred(rng)
				who, err := s.Wire(pki, "/any", c, false)
				if err != nil {
					r.Inconclusive("request failed")
					continue
				}
				caps(r, w, who)
				for _, sc := range routes {
					b := s.Reached.Load()
					a, err := s.Wire(pki, "/s/"+string(sc), c, false)
					if err != nil {
						r.Inconclusive("request failed")
						continue
					}
					judge(r, w, who, sc, "/s/"+string(sc), a, s.Reached.Load() != b, c, i)
					r.Add("wire_requests", 1)
				}
			}
			// Concurrent callers with different grants.
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				grng := r.Rand("conc", i, g)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 12; j++ {
						c := w.NewCred(grng)
						who, err := s.Wire(pki, "/any", c, false)
						if err != nil {
							continue
						}
						sc := routes[grng.Intn(len(routes))]
						if a, err := s.Wire(pki, "/v/"+string(sc), c, false); err == nil {
							judge(r, w, who, sc, "/v/"+string(sc), a, false, c, i)
						}
					}
				}()
			}
			wg.Wait()
			s.Close()
		}
	}
}

// sharedNames: several credentials resolve to identities of one name, each with its own grant
// (an operator gives one service two tokens, a verifier narrows what it returns per request).
// What counts is the grant of the credential presented, whatever was presented before.
func sharedNames(r *kit.Run, rng *rand.Rand, i int) {
	grant := func() []httpauth.Scope {
		var out []httpauth.Scope
		for _, s := range authref.AllScopes {
			if rng.Intn(2) == 0 {
				out = append(out, s)
			}
		}
		return out
	}
	names := []string{"svc", "ops"}
	type holder struct {
		c     authref.Cred
		id    string
		grant []httpauth.Scope
	}
	var all []holder
	p := httpauth.Policy{AllowBasicWithoutTLS: true}
	for k := 0; k < 3+rng.Intn(3); k++ {
		h := holder{authref.Cred{Kind: "token", Header: fmt.Sprintf("Bearer t-%d", k)}, names[rng.Intn(2)], grant()}
		p.Tokens = append(p.Tokens, httpauth.TokenIdentity{ID: h.id, Token: fmt.Sprintf("t-%d", k), Scopes: h.grant})
		all = append(all, h)
	}
	for k := 0; k < 2; k++ {
		u := fmt.Sprintf("u%d", k)
		h := holder{authref.Cred{Kind: "basic", Header: "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":pw"))}, names[rng.Intn(2)], grant()}
		p.BasicIdentities = append(p.BasicIdentities, httpauth.BasicIdentity{ID: h.id, Username: u, PasswordBcrypt: []byte(authref.Hash("pw")), Scopes: h.grant})
		all = append(all, h)
	}
	given := map[string]holder{}
	for k := 0; k < 3; k++ {
		h := holder{authref.Cred{Kind: "hook", Hook: fmt.Sprintf("h%d", k)}, names[rng.Intn(2)], grant()}
		given[h.c.Hook] = h
		all = append(all, h)
	}
	p.ServerVerify = func(c fiber.Ctx) (httpauth.Identity, error) {
		if h, ok := given[c.Get("X-Hook")]; ok {
			return httpauth.Identity{ID: h.id, Scopes: h.grant}, nil
		}
		return httpauth.Identity{}, errors.New("no")
	}
	s := authref.NewServer(p)
	for j := 0; j < 60; j++ {
		h := all[rng.Intn(len(all))]
		sc := routes[rng.Intn(len(routes))]
		path := []string{"/s/", "/v/"}[rng.Intn(2)] + string(sc)
		b := s.Reached.Load()
		a := s.Direct(path, h.c)
		ran := s.Reached.Load() != b
		want := 403
		if slices.Contains(h.grant, sc) {
			want = 200
		}
		if a.Status != want || ran != (want == 200) {
			r.Violate(fmt.Sprintf("grant-of-another:%d-for-%d", a.Status, want), "%s as %q with a %s credential granted %v (others of that name hold other grants): got %d, handler ran %v, want %d", path, h.id, h.c.Kind, h.grant, a.Status, ran, want)
		}
		if a.Status == 200 && a.HasID && (a.ID != h.id || !slices.Equal(a.Scopes, append([]httpauth.Scope{}, h.grant...))) {
			r.Violate("grant-reported", "%s as %q granted %v: the handler sees %q with %v", path, h.id, h.grant, a.ID, a.Scopes)
		}
		r.Case(fmt.Sprintf("shared|%d|%d", i, j), true)
		r.Seen("shared-name-verdicts", fmt.Sprint(h.c.Kind, want))
	}
}
