// C07: client credentials: last option wins, sent on every request, transport kept.
package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/oauth2/clientcredentials"

	"github.com/hyp3rd/hypercache/internal/vh/farm"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

func main() {
	kit.Main("C07", "random sequences of client options (bearer, basic, identity-provider credentials, caller-supplied HTTP client, logger, refresh) over healthy and failing endpoints; every request "+
		"recorded by the servers and by the caller's transport is checked for exactly the deciding credentials; non-trivial = at least one auth option or a supplied client", run)
}

const idp = 3 // farm index of the identity provider; 0..2 are cache nodes

func run(r *kit.Run) {
	f := farm.New(4)
	defer f.Close()
	if r.Phase("sequences") {
		for i := 0; i < r.N(1500, 40000); i++ {
			sequence(r, f, r.Rand("seq", i), i)
		}
	}
	if r.Phase("timeout") {
		timeouts(r, f)
	}
	if r.Phase("refused-options") {
		refusedOptions(r, f)
	}
	if r.Phase("idp-down") {
		idpDown(r, f)
	}
	if r.Phase("rotation") {
		for i := 0; i < r.N(20, 300); i++ {
			rotation(r, f, r.Rand("rot", i), i)
		}
	}
	if r.Phase("background") {
		background(r, f)
	}
	if r.Phase("parallel") {
		for i := 0; i < r.N(10, 200); i++ {
			parallel(r, f, r.Rand("par", i), i)
		}
	}
}

// tap is the caller's transport: it tags and counts what goes through it.
type tap struct {
	tag  string
	next http.RoundTripper
	mu   sync.Mutex
	seen []string // Authorization of requests it saw
	n    atomic.Int64
}

func (t *tap) RoundTrip(q *http.Request) (*http.Response, error) {
	t.n.Add(1)
	t.mu.Lock()
	t.seen = append(t.seen, q.Header.Get("Authorization"))
	t.mu.Unlock()
	c := q.Clone(q.Context())
	c.Header.Set("X-Tap", t.tag)
	return t.next.RoundTrip(c)
}

func fresh() http.RoundTripper { return &http.Transport{DisableKeepAlives: true} }

var tokens = []string{"tok", "a.b-c_d~e+f/g==", "x", strings.Repeat("long", 500), "Bearer nested", "with spaces"}
var users = []string{"u", "svc-billing", "ünï", "with space", "DOMAIN\\u"}
var passwords = []string{"p", "pa:ss", "pä☃", " spaced ", strings.Repeat("y", 300)}

// step is one applied option.
type step struct {
	kind string // bearer basic oidc http logger refresh
	val  string
}

func sequence(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	var opts []client.Option
	var steps []step
	auth := ""      // expected Authorization ("oidc:<client>" while not yet known)
	var cur *tap    // innermost caller transport expected
	orphan := false // an HTTP client supplied after auth options: they may or may not survive
	prev := ""
	type given struct {
		c    *http.Client
		snap http.Client
	}
	var givens []given
	n := rng.Intn(6)
	for k := 0; k < n; k++ {
		switch rng.Intn(7) {
		case 0, 1:
			t := tokens[rng.Intn(len(tokens))]
			opts = append(opts, client.WithBearerAuth(t))
			steps = append(steps, step{"bearer", clip(t)})
			auth, orphan = "Bearer "+t, false
		case 2, 3:
			u, p := users[rng.Intn(len(users))], passwords[rng.Intn(len(passwords))]
			opts = append(opts, client.WithBasicAuth(u, p))
			steps = append(steps, step{"basic", u})
			auth, orphan = "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)), false
		case 4:
			id := fmt.Sprintf("cl%d", rng.Intn(1000))
			opts = append(opts, client.WithOIDCClientCredentials(clientcredentials.Config{ClientID: id, ClientSecret: "s3cret-" + id, TokenURL: f.URL(idp) + "/token", Scopes: []string{"cache"}}))
			steps = append(steps, step{"oidc", id})
			auth, orphan = "oidc:"+id, false
		case 5:
			cur = &tap{tag: fmt.Sprintf("tap%d", k), next: fresh()}
			hc := &http.Client{Transport: cur, Timeout: time.Duration(5+rng.Intn(20)) * time.Second}
			if rng.Intn(2) == 0 {
				hc.Jar, _ = cookiejar.New(nil)
			}
			if rng.Intn(2) == 0 {
				hc.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
			}
			givens = append(givens, given{hc, *hc})
			opts = append(opts, client.WithHTTPClient(hc))
			steps = append(steps, step{"http", cur.tag})
			prev, orphan = auth, auth != ""
		case 6:
			opts = append(opts, client.WithLogger(slog.New(slog.NewTextHandler(io.Discard, nil))))
			steps = append(steps, step{"logger", ""})
		}
	}
	bad := rng.Intn(4) // how many of the three nodes fail first
	fails := map[int]bool{}
	for k := 0; k < bad && k < 3; k++ {
		fails[rng.Intn(3)] = true
	}
	var issued atomic.Int64
	f.Script(func(q farm.Req) farm.Reply {
		if q.Server == idp {
			b, _ := json.Marshal(map[string]any{"access_token": fmt.Sprintf("at-%d", issued.Add(1)), "token_type": "Bearer", "expires_in": 3600})
			return farm.Reply{Status: 200, Body: b, Header: map[string]string{"Content-Type": "application/json"}}
		}
		if fails[q.Server] {
			return farm.Reply{Status: 503}
		}
		rep := farm.OK(q)
		if rep.Header == nil {
			rep.Header = map[string]string{}
		}
		rep.Header["Set-Cookie"] = "sess=abc; Path=/"
		return rep
	})
	where := fmt.Sprintf("options %v, failing nodes %v", steps, fails)
	seeds := []string{f.URL(0), f.URL(1), f.URL(2)}
	if auth != "" && !orphan && rng.Intn(4) == 0 { // an address may carry a credential of its own; the option decides
		for k := range seeds {
			if rng.Intn(2) == 0 {
				seeds[k] = strings.Replace(seeds[k], "://", "://"+[]string{"old:secret@", "old@", "u:p@"}[rng.Intn(3)], 1)
			}
		}
		where += fmt.Sprintf(", seeds %q", seeds)
		r.Seen("seeds", "userinfo")
	}
	c, err := client.New(seeds, opts...)
	if err != nil {
		r.Violate("refused", "New: %v with %s", err, where)
		return
	}
	calls := 1 + rng.Intn(4)
	for k := 0; k < calls; k++ {
		cmd := farm.Cmds[rng.Intn(len(farm.Cmds))]
		err := cmd.Run(context.Background(), c)
		if len(fails) < 3 && err != nil {
			r.Violate("failed", "%s: %v with %s", cmd.Name, err, where)
		}
	}
	_ = c.Close()
	log := f.Log()
	asked := 0
	for k, q := range log {
		got := q.Header.Get("Authorization")
		if q.Server == idp {
			asked++
			checkTokenRequest(r, q, auth, where)
		} else {
			want := auth
			if strings.HasPrefix(auth, "oidc:") {
				want = "Bearer at-1"
			}
			okc := got == want && len(q.Header.Values("Authorization")) <= 1
			if orphan {
				p := prev
				if strings.HasPrefix(p, "oidc:") {
					p = "Bearer at-1"
				}
				okc = got == "" || got == p
			}
			if !okc {
				r.Violate("credentials", "request %d (%s %s) carried %q, want %q: %s", k, q.Method, q.URI, clip(got), clip(want), where)
			}
		}
		if cur != nil && q.Header.Get("X-Tap") != cur.tag {
			sig := "transport-bypassed"
			if q.Server == idp {
				sig = "transport-bypassed-token-request"
			}
			r.Violate(sig, "request %d (%s %s) went through %q, want the caller's transport %q: %s", k, q.Method, q.URI, q.Header.Get("X-Tap"), cur.tag, where)
		}
	}
	if strings.HasPrefix(auth, "oidc:") && !orphan && asked != 1 {
		r.Violate("token-requests", "%d token requests for %d calls within the token's life: %s", asked, calls, where)
	}
	if !strings.HasPrefix(auth, "oidc:") && asked != 0 {
		r.Violate("idp-contacted", "the identity provider was contacted although its credentials were overridden: %s", where)
	}
	for _, g := range givens {
		if g.c.Transport != g.snap.Transport || g.c.Timeout != g.snap.Timeout || g.c.Jar != g.snap.Jar || (g.c.CheckRedirect == nil) != (g.snap.CheckRedirect == nil) {
			r.Violate("caller-client-modified", "%s", where)
		}
	}
	if len(givens) > 0 {
		g := givens[len(givens)-1]
		if g.snap.Jar != nil && len(log) > 0 && calls > 1 {
			u, _ := url.Parse(f.URL(0))
			_ = u
			r.Seen("jar", "given")
		}
	}
	r.Add("requests_observed", int64(len(log)))
	r.Seen("deciding", strings.SplitN(auth, " ", 2)[0])
	r.Case(where, n > 0)
	if i < 3 {
		r.Sample("sequence", where)
	}
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

// checkTokenRequest: the provider sees the client credentials of the deciding option and nothing else.
func checkTokenRequest(r *kit.Run, q farm.Req, auth, where string) {
	id := strings.TrimPrefix(auth, "oidc:")
	v, err := url.ParseQuery(string(q.Body))
	if err != nil || v.Get("grant_type") != "client_credentials" {
		r.Violate("token-request", "token request body %q: %s", q.Body, where)
		return
	}
	user, pass := v.Get("client_id"), v.Get("client_secret")
	if h, ok := strings.CutPrefix(q.Header.Get("Authorization"), "Basic "); ok {
		raw, _ := base64.StdEncoding.DecodeString(h)
		user, pass, _ = strings.Cut(string(raw), ":")
		user, _ = url.QueryUnescape(user)
		pass, _ = url.QueryUnescape(pass)
	} else if q.Header.Get("Authorization") != "" {
		r.Violate("credentials-leaked", "the identity provider was sent %q: %s", clip(q.Header.Get("Authorization")), where)
	}
	if user != id || pass != "s3cret-"+id {
		r.Violate("token-request", "the identity provider was asked as %q, want %q: %s", user, id, where)
	}
}

// timeouts: the supplied client's timeout bounds every call, under every auth option.
func timeouts(r *kit.Run, f *farm.Farm) {
	f.Script(func(q farm.Req) farm.Reply {
		if q.Server == idp {
			return farm.Reply{Status: 200, Body: []byte(`{"access_token":"at","token_type":"Bearer","expires_in":3600}`), Header: map[string]string{"Content-Type": "application/json"}}
		}
		return farm.Reply{Mode: "hang"}
	})
	for name, o := range map[string]client.Option{
		"none": client.WithLogger(nil), "bearer": client.WithBearerAuth("t"), "basic": client.WithBasicAuth("u", "p"),
		"oidc": client.WithOIDCClientCredentials(clientcredentials.Config{ClientID: "a", ClientSecret: "b", TokenURL: f.URL(idp)}),
	} {
		for _, cmd := range farm.Cmds {
			c, err := client.New([]string{f.URL(0)}, client.WithHTTPClient(&http.Client{Timeout: 70 * time.Millisecond, Transport: fresh()}), o)
			if err != nil {
				r.Violate("refused", "%s: %v", name, err)
				continue
			}
			ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
			t := time.Now()
			err = cmd.Run(ctx, c)
			if d := time.Since(t); err == nil || d > 4*time.Second {
				r.Violate("timeout-lost:"+name, "%s with a 70ms client timeout under %s auth returned %v after %v", cmd.Name, name, err, d)
			}
			cancel()
			r.Case("timeout"+name+cmd.Name, true)
		}
	}
}

// refusedOptions: unusable options fail construction instead of yielding a client without credentials.
func refusedOptions(r *kit.Run, f *farm.Farm) {
	full := clientcredentials.Config{ClientID: "a", ClientSecret: "b", TokenURL: "http://x"}
	noID, noSecret, noURL := full, full, full
	noID.ClientID, noSecret.ClientSecret, noURL.TokenURL = "", "", ""
	for name, o := range map[string]client.Option{
		"empty bearer": client.WithBearerAuth(""), "empty user": client.WithBasicAuth("", "p"), "empty password": client.WithBasicAuth("u", ""), "nil client": client.WithHTTPClient(nil),
		"no client id": client.WithOIDCClientCredentials(noID), "no secret": client.WithOIDCClientCredentials(noSecret), "no token url": client.WithOIDCClientCredentials(noURL),
		"zero oidc": client.WithOIDCClientCredentials(clientcredentials.Config{}), "fast refresh": client.WithTopologyRefresh(999 * time.Millisecond), "1ns refresh": client.WithTopologyRefresh(1),
	} {
		for _, before := range [][]client.Option{nil, {client.WithBearerAuth("ok")}} {
			c, err := client.New([]string{f.URL(0)}, append(before, o)...)
			if err == nil || c != nil {
				r.Violate("accepted:"+name, "New accepted %s", name)
			}
			r.Case("refuse"+name+fmt.Sprint(len(before)), true)
		}
	}
	for _, seeds := range [][]string{nil, {}, {""}, {" ", "/", " // "}} {
		c, err := client.New(seeds)
		if c != nil || !errors.Is(err, client.ErrNoEndpoints) {
			r.Violate("no-endpoints", "New(%q) = %v, %v", seeds, c, err)
		}
	}
}

// idpDown: no token, no request.
func idpDown(r *kit.Run, f *farm.Farm) {
	for _, st := range []farm.Reply{{Status: 500}, {Status: 401, Body: []byte(`{"error":"invalid_client"}`)}, {Mode: "reset"}, {Status: 200, Body: []byte(`{}`)}, {Status: 200, Body: []byte("junk")}} {
		f.Script(func(q farm.Req) farm.Reply {
			if q.Server == idp {
				return st
			}
			return farm.OK(q)
		})
		c, _ := client.New([]string{f.URL(0), f.URL(1)}, client.WithBearerAuth("stale"), client.WithOIDCClientCredentials(clientcredentials.Config{ClientID: "a", ClientSecret: "b", TokenURL: f.URL(idp)}))
		for _, cmd := range farm.Cmds {
			if err := cmd.Run(context.Background(), c); err == nil {
				r.Violate("no-token-success", "%s succeeded without a token (provider answered %+v)", cmd.Name, st)
			}
		}
		for _, q := range f.Log() {
			if q.Server != idp {
				r.Violate("unauthenticated-request", "a request with Authorization %q was sent although no token could be obtained", q.Header.Get("Authorization"))
				break
			}
		}
		r.Case(fmt.Sprint("idp", st.Status, st.Mode), true)
	}
}

// rotation: tokens that expire at once are renewed, and every request carries a token issued to this client.
func rotation(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	var n atomic.Int64
	f.Script(func(q farm.Req) farm.Reply {
		if q.Server == idp {
			b, _ := json.Marshal(map[string]any{"access_token": fmt.Sprintf("at-%d", n.Add(1)), "token_type": "Bearer", "expires_in": 1})
			return farm.Reply{Status: 200, Body: b, Header: map[string]string{"Content-Type": "application/json"}}
		}
		return farm.OK(q)
	})
	c, _ := client.New([]string{f.URL(0), f.URL(1)}, client.WithOIDCClientCredentials(clientcredentials.Config{ClientID: "a", ClientSecret: "s3cret-a", TokenURL: f.URL(idp)}))
	for k := 0; k < 6; k++ {
		cmd := farm.Cmds[rng.Intn(len(farm.Cmds))]
		if err := cmd.Run(context.Background(), c); err != nil {
			r.Violate("rotation-failed", "%s: %v", cmd.Name, err)
		}
	}
	last := 0
	issued := 0
	for _, q := range f.Log() {
		if q.Server == idp {
			issued++
			continue
		}
		var k int
		if _, err := fmt.Sscanf(q.Header.Get("Authorization"), "Bearer at-%d", &k); err != nil || k < last || k > issued || k != issued {
			r.Violate("stale-token", "a request carried %q after %d tokens had been issued (each expired on arrival)", q.Header.Get("Authorization"), issued)
		}
		last = k
	}
	r.Add("tokens_issued", int64(issued))
	r.Case(fmt.Sprint("rot", i), true)
}

// background: the refresh loop authenticates like everything else.
func background(r *kit.Run, f *farm.Farm) {
	f.Script(farm.OK)
	t := &tap{tag: "bg", next: fresh()}
	c, err := client.New([]string{f.URL(0), f.URL(1)}, client.WithHTTPClient(&http.Client{Transport: t, Timeout: 5 * time.Second}), client.WithBasicAuth("u", "p"), client.WithTopologyRefresh(time.Second), client.WithBearerAuth("final"))
	if err != nil {
		r.Violate("refused", "%v", err)
		return
	}
	time.Sleep(2500 * time.Millisecond)
	_ = c.Close()
	log := f.Log()
	if len(log) == 0 {
		r.Violate("no-refresh", "no refresh request within 2.5s of a 1s interval")
	}
	for _, q := range log {
		if q.Header.Get("Authorization") != "Bearer final" || q.Header.Get("X-Tap") != "bg" {
			r.Violate("refresh-credentials", "refresh %s carried %q through %q", q.URI, q.Header.Get("Authorization"), q.Header.Get("X-Tap"))
		}
	}
	r.Add("background_refreshes", int64(len(log)))
	r.Case("background", len(log) > 0)
}

// parallel: two clients with different credentials used at once never mix them.
func parallel(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	f.Script(farm.OK)
	shared := &http.Client{Transport: fresh(), Timeout: 20 * time.Second}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		tok := fmt.Sprintf("own-%d", w)
		c, _ := client.New([]string{f.URL(0), f.URL(1), f.URL(2)}, client.WithHTTPClient(shared), client.WithBearerAuth(tok))
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					_, _ = c.Get(context.Background(), tok)
				}
			}()
		}
	}
	wg.Wait()
	for _, q := range f.Log() {
		if want := "Bearer " + strings.TrimPrefix(q.URI, "/v1/cache/"); q.Header.Get("Authorization") != want {
			r.Violate("credentials-mixed", "request of the client with %q carried %q", want, q.Header.Get("Authorization"))
		}
	}
	r.Case(fmt.Sprint("par", i), true)
}
