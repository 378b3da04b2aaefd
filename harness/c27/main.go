// C27: management endpoints report the cache truthfully and only to the authorized.
//
// Oracle: below the server sits either a recording cache (every call that reaches it is known, every value it reports
// is unique, so a leak or a side effect of a refused request is visible) or a real cache whose state is read directly
// and compared with what the endpoints say. Lifecycle is judged by the answers, the port and the goroutines left.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

var ctx = context.Background()

const patience = 20 * time.Second

func main() {
	kit.Main("C27", "a request to a management server whose effects and answer were both observed", func(r *kit.Run) {
		gates(r)
		verdicts(r)
		truth(r)
		distTruth(r)
		stream(r)
		controls(r)
		lifecycle(r)
	})
}

// ---------------------------------------------------------------- a recording cache

const secret = "s3cr3t-state-"

type fake struct {
	reads, evicts, expires, clears atomic.Int64
	clearErr                       error
	bus                            *eventbus.Bus
	hold                           chan struct{} // a Clear waits for it or for its context
	holding                        atomic.Int32
	ctxDone                        atomic.Int32
}

func (f *fake) GetStats() stats.Stats {
	f.reads.Add(1)
	return stats.Stats{secret: &stats.Stat{Count: 7}}
}
func (f *fake) Capacity() int                     { f.reads.Add(1); return 918273645 }
func (f *fake) Allocation() int64                 { f.reads.Add(1); return 918273646 }
func (f *fake) MaxCacheSize() int64               { f.reads.Add(1); return 918273647 }
func (f *fake) TriggerEviction(context.Context)   { f.evicts.Add(1) }
func (f *fake) TriggerExpiration()                { f.expires.Add(1) }
func (f *fake) EvictionInterval() time.Duration   { f.reads.Add(1); return 918273648 }
func (f *fake) ExpirationInterval() time.Duration { f.reads.Add(1); return 918273649 }
func (f *fake) EvictionAlgorithm() string         { f.reads.Add(1); return secret + "algo" }
func (f *fake) Clear(c context.Context) error {
	f.clears.Add(1)
	if f.hold != nil {
		f.holding.Add(1)
		select {
		case <-f.hold:
		case <-c.Done():
			f.ctxDone.Add(1)
			return c.Err()
		}
	}
	return f.clearErr
}
func (f *fake) DistMetrics() any                  { f.reads.Add(1); return map[string]any{secret + "metrics": 1} }
func (f *fake) ClusterOwners(key string) []string { f.reads.Add(1); return []string{secret + "owner"} }
func (f *fake) DistMembershipSnapshot() (members []struct {
	ID          string
	Address     string
	State       string
	Incarnation uint64
}, replication, vnodes int,
) {
	f.reads.Add(1)
	members = append(members, struct {
		ID          string
		Address     string
		State       string
		Incarnation uint64
	}{secret + "member", "a", "alive", 3})
	return members, 918273650, 918273651
}
func (f *fake) DistRingHashSpots() []string { f.reads.Add(1); return []string{secret + "spot"} }
func (f *fake) DistHeartbeatMetrics() any   { f.reads.Add(1); return map[string]any{secret + "hb": 1} }
func (f *fake) EventBus() *eventbus.Bus     { return f.bus }

func (f *fake) effects() int64 { return f.evicts.Load() + f.expires.Load() + f.clears.Load() }

// ---------------------------------------------------------------- gates

type creds struct{ bearer string }

// gate describes an auth function and whom it admits.
type gate struct {
	name  string
	fn    func(fiber.Ctx) error
	admit func(tok string) bool
}

func headerGate(name string, toks ...string) gate {
	ok := map[string]bool{}
	for _, t := range toks {
		ok[t] = true
	}
	return gate{name, func(c fiber.Ctx) error {
		if ok[strings.TrimPrefix(c.Get("Authorization"), "Bearer ")] {
			return nil
		}
		return fiber.NewError(fiber.StatusUnauthorized, "no")
	}, func(t string) bool { return ok[t] }}
}

var plainRefusal = errors.New("refused")

// respondGate refuses with an error of its own and has already written an answer.
func respondGate(name string, toks ...string) gate {
	g := headerGate(name, toks...)
	return gate{name, func(c fiber.Ctx) error {
		if g.admit(strings.TrimPrefix(c.Get("Authorization"), "Bearer ")) {
			return nil
		}
		_ = c.Status(fiber.StatusForbidden).SendString("go away")
		return plainRefusal
	}, g.admit}
}

func policyGate(scope httpauth.Scope) gate {
	p := httpauth.Policy{Tokens: []httpauth.TokenIdentity{
		{ID: "r", Token: "tok-read", Scopes: []httpauth.Scope{httpauth.ScopeRead}},
		{ID: "w", Token: "tok-write", Scopes: []httpauth.Scope{httpauth.ScopeWrite}},
		{ID: "a", Token: "tok-admin", Scopes: []httpauth.Scope{httpauth.ScopeAdmin, httpauth.ScopeRead}},
	}}
	want := map[string][]httpauth.Scope{}
	for _, t := range p.Tokens {
		want[t.Token] = t.Scopes
	}
	return gate{"policy-" + string(scope), func(c fiber.Ctx) error { return p.Verify(c, scope) }, func(t string) bool {
		for _, s := range want[t] {
			if s == scope {
				return true
			}
		}
		return false
	}}
}

var readRoutes = []string{"/stats", "/config", "/dist/metrics", "/dist/owners?key=k", "/dist/owners", "/cluster/members", "/cluster/ring", "/cluster/heartbeat", "/cluster/events"}
var controlRoutes = []string{"/evict", "/trigger-expiration", "/clear"}
var odd = []string{"/", "/stats/", "/Stats", "//stats", "/./stats", "/%73tats", "/health/../config", "/config/", "/CLEAR", "/clear/", "/%63lear", "/health", "/health/", "/Health", "/healthz", "/clear?x=/health", "/evict#", "/cluster/members/", "/cluster", "/dist/", "/trigger-expiration/", "/Evict", "/clear;x", "/clear%2f", "/health/clear", "/nope"}
var methods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE"}

func raw(addr, method, path, tok string, extra []string, body string) (status int, answer []byte, err error) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(10 * time.Second))
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n", method, path)
	if tok != "" {
		fmt.Fprintf(&b, "Authorization: Bearer %s\r\n", tok)
	}
	for _, h := range extra {
		b.WriteString(h + "\r\n")
	}
	if body != "" || method == "POST" || method == "PUT" || method == "PATCH" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n" + body)
	if _, err := io.WriteString(c, b.String()); err != nil {
		return 0, nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	if strings.HasPrefix(resp.Header.Get("Content-Type"), "text/event-stream") {
		_ = c.SetDeadline(time.Now().Add(40 * time.Millisecond))
	}
	data, _ := io.ReadAll(io.LimitReader(resp.Body, 1<<16))
	return resp.StatusCode, data, nil
}

func gates(r *kit.Run) {
	if !r.Phase("gates") {
		return
	}
	none := gate{name: "none"}
	combos := [][2]gate{
		{headerGate("tok", "tok-read", "tok-admin"), none},
		{headerGate("tok", "tok-read"), headerGate("ctl", "tok-admin")},
		{respondGate("resp", "tok-read"), none},
		{respondGate("resp", "tok-read"), respondGate("ctl", "tok-admin")},
		{policyGate(httpauth.ScopeRead), policyGate(httpauth.ScopeAdmin)},
		{policyGate(httpauth.ScopeAdmin), none},
		{policyGate(httpauth.ScopeAdmin), policyGate(httpauth.ScopeWrite)},
		{none, headerGate("ctl", "tok-admin")},
		{none, none},
	}
	toks := []string{"", "tok-read", "tok-write", "tok-admin", "tok-reads", "tok-", "TOK-ADMIN", "wrong"}
	for ci, cb := range combos {
		f := &fake{bus: eventbus.New()}
		var opts []hypercache.ManagementHTTPOption
		if cb[0].fn != nil {
			opts = append(opts, hypercache.WithMgmtAuth(cb[0].fn))
		}
		if cb[1].fn != nil {
			opts = append(opts, hypercache.WithMgmtControlAuth(cb[1].fn))
		}
		g := r.Rand("gates", ci)
		if g.Intn(2) == 0 && len(opts) == 2 {
			opts[0], opts[1] = opts[1], opts[0]
		}
		srv := hypercache.NewManagementHTTPServer("127.0.0.1:0", opts...)
		if err := srv.Start(ctx, f); err != nil {
			r.Violate("start", "Start = %v", err)
			return
		}
		ctl := cb[1]
		if ctl.fn == nil {
			ctl = cb[0]
		}
		ask := func(method, path, tok string) {
			extra := [][]string{nil, {"X-HTTP-Method-Override: POST"}, {"X-Original-URL: /clear"}, {"X-Rewrite-URL: /clear"}, {"X-Forwarded-For: 127.0.0.1"}}[g.Intn(5)]
			reads, effects := f.reads.Load(), f.effects()
			ev, ex, cl := f.evicts.Load(), f.expires.Load(), f.clears.Load()
			status, body, err := raw(srv.Address(), method, path, tok, extra, "")
			label := fmt.Sprintf("auth %s, control %s: %s %s as %q", cb[0].name, cb[1].name, method, path, tok)
			if err != nil {
				r.Violate("no-answer", "%s: %v", label, err)
				return
			}
			r.Add("requests", 1)
			leaked := bytes.Contains(body, []byte(secret)) || bytes.Contains(body, []byte("9182736"))
			// what the gates in force say about this caller
			mayRead := cb[0].fn == nil || cb[0].admit(tok)
			mayControl := ctl.fn == nil || ctl.admit(tok)
			if !mayRead && (leaked || f.reads.Load() != reads) {
				r.Violate("unauthorized-read", "%s: status %d although the auth function refuses this caller: %q (state read: %v)", label, status, body, f.reads.Load() != reads)
			}
			if !mayControl && f.effects() != effects {
				r.Violate("unauthorized-control", "%s: status %d although the control check refuses this caller, and the operation ran", label, status)
			}
			if (method == "GET" || method == "HEAD" || method == "OPTIONS") && f.effects() != effects {
				r.Violate("control-by-read", "%s: a safe method ran a control operation", label)
			}
			base := strings.SplitN(path, "?", 2)[0]
			exactRead := method == "GET" && contains(readRoutes, path)
			exactCtl := method == "POST" && contains(controlRoutes, path)
			switch {
			case method == "GET" && path == "/health":
				if status != 200 || string(body) != "ok" {
					r.Violate("health", "%s: %d %q; the health probe answers everybody", label, status, body)
				}
			case exactRead && !mayRead, exactCtl && !mayControl:
				if status < 400 {
					r.Violate("refused-status", "%s: refused with status %d", label, status)
				}
				if cb[0].name == "tok" && exactRead && status != 401 {
					r.Violate("refused-status", "%s: the auth function answered 401, the server %d", label, status)
				}
			case exactRead:
				want := 200
				if path == "/dist/owners" {
					want = 400
				}
				if status != want || (want == 200 && !leaked) {
					r.Violate("admitted-read", "%s: %d %q for an admitted caller", label, status, body)
				}
			case exactCtl:
				want := map[string][3]int64{"/evict": {1, 0, 0}, "/trigger-expiration": {0, 1, 0}, "/clear": {0, 0, 1}}[base]
				got := [3]int64{f.evicts.Load() - ev, f.expires.Load() - ex, f.clears.Load() - cl}
				if status >= 300 || got != want {
					r.Violate("admitted-control", "%s: %d, operations run (evict, expire, clear) %v, want %v", label, status, got, want)
				}
			}
			r.Case(label, true)
			r.Seen("outcomes", fmt.Sprint(exactRead, exactCtl, mayRead, mayControl, status/100))
		}
		for _, tok := range toks {
			for _, p := range readRoutes {
				ask("GET", p, tok)
			}
			for _, p := range controlRoutes {
				ask("POST", p, tok)
				ask("GET", p, tok)
			}
			ask("GET", "/health", tok)
		}
		all := append(append(append([]string{}, readRoutes...), controlRoutes...), odd...)
		for i := 0; i < r.N(60, 800); i++ {
			ask(methods[g.Intn(len(methods))], all[g.Intn(len(all))], toks[g.Intn(len(toks))])
		}
		// concurrent callers of different rights never lend each other theirs
		var wg sync.WaitGroup
		if cb[0].fn != nil {
			reads := f.reads.Load()
			_ = reads
			for w := 0; w < 8; w++ {
				tok := toks[w%len(toks)]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < r.N(15, 150); i++ {
						p := readRoutes[(i+w)%(len(readRoutes)-1)]
						status, body, err := raw(srv.Address(), "GET", p, tok, nil, "")
						if err != nil {
							r.Violate("no-answer", "GET %s: %v", p, err)
							return
						}
						leaked := bytes.Contains(body, []byte(secret)) || bytes.Contains(body, []byte("9182736"))
						if ok := cb[0].admit(tok); !ok && (leaked || status < 400) || ok && status >= 400 && p != "/dist/owners" {
							r.Violate("concurrent-mixup", "GET %s as %q under concurrent callers: %d %q", p, tok, status, body)
						}
						r.Add("requests", 1)
					}
				}()
			}
			wg.Wait()
		}
		// a failing Clear is not reported as done
		f.clearErr = errors.New("cannot clear")
		for _, tok := range toks {
			if ctl.fn == nil || ctl.admit(tok) {
				if status, _, err := raw(srv.Address(), "POST", "/clear", tok, nil, ""); err == nil && status < 400 {
					r.Violate("clear-failed", "POST /clear answered %d although the cache reported %v", status, f.clearErr)
				}
			}
		}
		sctx, cancel := context.WithTimeout(ctx, 5*time.Second)
		_ = srv.Shutdown(sctx)
		cancel()
	}
}

// verdicts: the auth functions decide every request for itself, whatever they said about the same credential, route
// or connection before: revoked and restored credentials, quotas and maintenance windows all look like this.
func verdicts(r *kit.Run) {
	if !r.Phase("verdicts") {
		return
	}
	for i := 0; i < r.N(6, 40); i++ {
		g := r.Rand("verdicts", i)
		var mu sync.Mutex
		said := map[string][2]int{} // request id -> read and control verdict: 1 admits, 2 refuses
		asked := map[string][2]int{}
		next := 0
		gate := func(which int) func(fiber.Ctx) error {
			return func(c fiber.Ctx) error {
				id := strings.Clone(c.Get("X-Req"))
				mu.Lock()
				defer mu.Unlock()
				a := asked[id]
				a[which]++
				asked[id] = a
				if said[id][which] == 1 {
					return nil
				}
				return fiber.ErrUnauthorized
			}
		}
		f := &fake{bus: eventbus.New()}
		opts := []hypercache.ManagementHTTPOption{hypercache.WithMgmtAuth(gate(0))}
		separate := i%2 == 0
		if separate {
			opts = append(opts, hypercache.WithMgmtControlAuth(gate(1)))
		}
		srv := hypercache.NewManagementHTTPServer("127.0.0.1:0", opts...)
		if err := srv.Start(ctx, f); err != nil {
			r.Violate("start", "Start = %v", err)
			return
		}
		hc := &http.Client{Timeout: patience}
		workers := []int{1, 6}[g.Intn(2)]
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < r.N(60, 300)/workers; n++ {
					method, path, which := "GET", readRoutes[h.Intn(len(readRoutes)-1)], 0 // not the stream
					if path == "/dist/owners" {
						path += "?key=k"
					}
					if h.Intn(3) == 0 {
						method, path = "POST", controlRoutes[h.Intn(len(controlRoutes))]
						if separate {
							which = 1
						}
					}
					mu.Lock()
					next++
					id := fmt.Sprint("r", next)
					v := [2]int{1 + h.Intn(2), 1 + h.Intn(2)}
					said[id] = v
					mu.Unlock()
					req, _ := http.NewRequestWithContext(ctx, method, "http://"+srv.Address()+path, nil)
					req.Header.Set("X-Req", id)
					if k := h.Intn(4); k > 0 {
						req.Header.Set("Authorization", fmt.Sprintf("Bearer tok-%d", k))
					}
					effects := f.effects()
					resp, err := hc.Do(req)
					if err != nil {
						r.Violate("no-answer", "%s %s: %v", method, path, err)
						continue
					}
					body, _ := io.ReadAll(io.LimitReader(resp.Body, 1<<16))
					resp.Body.Close()
					mu.Lock()
					times := asked[id][which]
					mu.Unlock()
					r.Add("requests", 1)
					label := fmt.Sprintf("%s %s (control gate of its own: %v, %d callers), gate asked %d times", method, path, separate, workers, times)
					switch admitted := v[which] == 1; {
					case !admitted && resp.StatusCode < 400:
						r.Violate("refusal-not-final", "%s: answered %d %q to a request the auth function refuses", label, resp.StatusCode, body)
					case !admitted && workers == 1 && f.effects() != effects:
						r.Violate("unauthorized-control", "%s: the operation ran although the auth function refuses this request", label)
					case admitted && resp.StatusCode >= 400:
						r.Violate("admission-not-final", "%s: answered %d %q to a request the auth function admits", label, resp.StatusCode, body)
					}
					r.Seen("verdicts", fmt.Sprint(method, path, v, separate))
				}
			}()
		}
		wg.Wait()
		hc.CloseIdleConnections()
		sctx, cancel := context.WithTimeout(ctx, 5*time.Second)
		_ = srv.Shutdown(sctx)
		cancel()
		r.Case(fmt.Sprint("verdicts", i), true)
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- truth

var client = &http.Client{Timeout: patience, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}

func fetch(r *kit.Run, addr, path string, out any) int {
	resp, err := client.Get("http://" + addr + path)
	if err != nil {
		r.Violate("no-answer", "GET %s: %v", path, err)
		return 0
	}
	defer resp.Body.Close()
	data, _ := io.ReadAll(resp.Body)
	r.Add("requests", 1)
	if out != nil {
		if err := json.Unmarshal(data, out); err != nil {
			r.Violate("not-json", "GET %s: %d %q is not JSON: %v", path, resp.StatusCode, data, err)
		}
	}
	return resp.StatusCode
}

func post(r *kit.Run, addr, path string) int {
	resp, err := client.Post("http://"+addr+path, "", nil)
	if err != nil {
		r.Violate("no-answer", "POST %s: %v", path, err)
		return 0
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	_ = resp.Body.Close()
	r.Add("requests", 1)
	return resp.StatusCode
}

// same compares two values as JSON.
func same(a, b any) bool { return reflect.DeepEqual(norm(a), norm(b)) }

func norm(v any) any {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out any
	_ = json.Unmarshal(data, &out)
	return out
}

func newMem(capacity int, opts ...hypercache.Option[backend.InMemory]) *hypercache.HyperCache[backend.InMemory] {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = append(opts, hypercache.WithManagementHTTP[backend.InMemory]("127.0.0.1:0"))
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

var algos = []string{"lru", "lfu", "clock", "cawolfu"}

func truth(r *kit.Run) {
	if !r.Phase("truth") {
		return
	}
	for i := 0; i < r.N(40, 600); i++ {
		g := r.Rand("truth", i)
		capacity, algo := 1+g.Intn(60), algos[g.Intn(len(algos))]
		limit := int64(1+g.Intn(4000)) * 64
		exp, ev := time.Duration(1+g.Intn(5000))*time.Hour, time.Duration(1+g.Intn(5000))*time.Minute
		hc := newMem(capacity, hypercache.WithEvictionAlgorithm[backend.InMemory](algo),
			hypercache.WithMaxCacheSize[backend.InMemory](limit),
			hypercache.WithExpirationInterval[backend.InMemory](exp),
			hypercache.WithEvictionInterval[backend.InMemory](ev))
		addr := hc.ManagementHTTPAddress()
		for step := 0; step < 4; step++ {
			for n := 0; n < g.Intn(40); n++ {
				k := fmt.Sprint("k", g.Intn(50))
				switch g.Intn(4) {
				case 0, 1:
					_ = hc.Set(ctx, k, strings.Repeat("x", g.Intn(300)), time.Hour)
				case 2:
					_ = hc.Remove(ctx, k)
				case 3:
					_, _ = hc.Get(ctx, k)
				}
			}
			if g.Intn(3) == 0 {
				capacity = 1 + g.Intn(60)
				hc.SetCapacity(ctx, capacity)
			}
			// Evictions that the writes and the new capacity set off come to rest first.
			if !eventually(func() bool {
				n, a := hc.Count(ctx), hc.Allocation()
				time.Sleep(3 * time.Millisecond)
				return hc.Count(ctx) == n && hc.Allocation() == a
			}) {
				r.Inconclusive("the cache did not come to rest")
				continue
			}
			var cfg map[string]any
			fetch(r, addr, "/config", &cfg)
			want := map[string]any{
				"capacity": capacity, "maxCacheSize": limit, "allocation": hc.Allocation(),
				"evictionInterval": ev.String(), "expirationInterval": exp.String(), "evictionAlgorithm": algo,
			}
			for k, v := range want {
				if !same(cfg[k], v) {
					r.Violate("config", "/config says %s = %v, the cache %v (capacity %d, %s, limit %d)", k, cfg[k], v, capacity, algo, limit)
				}
			}
			if s, err := hc.List(ctx); err == nil {
				var total int64
				for _, it := range s {
					total += it.Size
				}
				if !same(cfg["allocation"], total) {
					r.Violate("allocation", "/config says allocation %v, the items held add up to %d", cfg["allocation"], total)
				}
			}
			var st map[string]any
			fetch(r, addr, "/stats", &st)
			if w := hc.GetStats(); !same(st, w) {
				r.Violate("stats", "/stats answers %v, the collector holds %v", norm(st), norm(w))
			}
			r.Case(fmt.Sprintf("truth %d %d", i, step), true)
		}
		// a cache that is not distributed does not report a cluster
		for _, p := range []string{"/dist/metrics"} {
			if s := fetch(r, addr, p, nil); s != 404 {
				r.Violate("not-distributed", "GET %s of an in-memory cache answers %d", p, s)
			}
		}
		if s := fetch(r, addr, "/cluster/events", nil); s != 503 {
			r.Violate("not-distributed", "GET /cluster/events of an in-memory cache answers %d", s)
		}
		_ = hc.Stop(ctx)
	}
}

type member struct {
	ID, Address, State string
	Incarnation        uint64
}

type membersDoc struct {
	Replication  int      `json:"replication"`
	VirtualNodes int      `json:"virtualNodes"`
	Members      []member `json:"members"`
}

func sorted(m []member) []member {
	sort.Slice(m, func(i, j int) bool { return m[i].ID < m[j].ID })
	return m
}

func live(m *cluster.Membership) []member {
	var out []member
	for _, n := range m.List() {
		out = append(out, member{string(n.ID), n.Address, n.State.String(), n.Incarnation})
	}
	return sorted(out)
}

func newDist(m *cluster.Membership, id string, rf int) *hypercache.HyperCache[backend.DistMemory] {
	cfg, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{hypercache.WithManagementHTTP[backend.DistMemory]("127.0.0.1:0")}
	cfg.DistMemoryOptions = []backend.DistMemoryOption{
		backend.WithDistReplication(rf),
		backend.WithDistMembership(m, cluster.NewNode(id, "127.0.0.1:1")),
		backend.WithDistTransport(backend.NewInProcessTransport()),
	}
	hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

func mutate(g *rand.Rand, m *cluster.Membership, self string) {
	id := cluster.NodeID(fmt.Sprint("m", g.Intn(8)))
	switch g.Intn(5) {
	case 0, 1:
		m.Upsert(cluster.NewNode(string(id), fmt.Sprintf("10.0.0.%d:7000", g.Intn(200))))
	case 2:
		m.Mark(id, cluster.NodeState(g.Intn(3)))
	case 3:
		m.Remove(id)
	case 4:
		m.Merge(&cluster.Node{ID: id, Address: "10.1.1.1:1", State: cluster.NodeAlive, Incarnation: uint64(g.Intn(30))})
	}
}

func distTruth(r *kit.Run) {
	if !r.Phase("distTruth") {
		return
	}
	for i := 0; i < r.N(20, 300); i++ {
		g := r.Rand("distTruth", i)
		rf, vn := 1+g.Intn(3), 1+g.Intn(40)
		ring := cluster.NewRing(cluster.WithReplication(rf), cluster.WithVirtualNodes(vn))
		m := cluster.NewMembership(ring)
		self := "self"
		hc := newDist(m, self, rf)
		addr := hc.ManagementHTTPAddress()
		for step := 0; step < 5; step++ {
			for n := 0; n < g.Intn(6); n++ {
				mutate(g, m, self)
			}
			for n := 0; n < g.Intn(10); n++ {
				_ = hc.Set(ctx, fmt.Sprint("k", g.Intn(9)), "v", time.Hour)
				_, _ = hc.Get(ctx, fmt.Sprint("k", g.Intn(9)))
			}
			var doc membersDoc
			fetch(r, addr, "/cluster/members", &doc)
			if w := live(m); !reflect.DeepEqual(sorted(doc.Members), w) || doc.Replication != rf || doc.VirtualNodes != vn {
				r.Violate("members", "/cluster/members = %+v, the membership holds %+v (replication %d, vnodes %d)", doc, w, rf, vn)
			}
			var rg struct {
				Count  int      `json:"count"`
				Vnodes []string `json:"vnodes"`
			}
			fetch(r, addr, "/cluster/ring", &rg)
			alive := 0
			for _, n := range live(m) {
				if n.State != "dead" {
					alive++
				}
			}
			if rg.Count != len(rg.Vnodes) || rg.Count != alive*vn {
				r.Violate("ring", "/cluster/ring counts %d (lists %d), %d members of %d virtual nodes take part", rg.Count, len(rg.Vnodes), alive, vn)
			}
			var cfg map[string]any
			fetch(r, addr, "/config", &cfg)
			if !same(cfg["replication"], rf) || !same(cfg["virtualNodesPerNode"], vn) {
				r.Violate("config", "/config says replication %v, virtual nodes %v; they are %d and %d", cfg["replication"], cfg["virtualNodesPerNode"], rf, vn)
			}
			for _, k := range []string{"k1", "a/b c", "ключ", "k%20x", strings.Repeat("z", 300), "a+b&c=d"} {
				var ow struct {
					Key    string   `json:"key"`
					Owners []string `json:"owners"`
				}
				fetch(r, addr, "/dist/owners?key="+escape(k), &ow)
				var w []string
				for _, o := range m.Ring().Lookup(k) {
					w = append(w, string(o))
				}
				if ow.Key != k || !reflect.DeepEqual(ow.Owners, w) {
					r.Violate("owners", "/dist/owners of %q = %+v, the ring says %v", k, ow, w)
				}
			}
			var dmx, hb map[string]any
			before := norm(hc.DistMetrics()).(map[string]any)
			fetch(r, addr, "/dist/metrics", &dmx)
			after := norm(hc.DistMetrics()).(map[string]any)
			for k, v := range before {
				if reflect.DeepEqual(v, after[k]) && !reflect.DeepEqual(dmx[k], v) {
					r.Violate("metrics", "/dist/metrics says %s = %v, the node counts %v", k, dmx[k], v)
				}
			}
			hbb := norm(hc.DistHeartbeatMetrics()).(map[string]any)
			fetch(r, addr, "/cluster/heartbeat", &hb)
			hba := norm(hc.DistHeartbeatMetrics()).(map[string]any)
			for k, v := range hbb {
				if reflect.DeepEqual(v, hba[k]) && !reflect.DeepEqual(hb[k], v) {
					r.Violate("heartbeat", "/cluster/heartbeat says %s = %v, the node counts %v", k, hb[k], v)
				}
			}
			r.Case(fmt.Sprintf("dist %d %d", i, step), true)
		}
		_ = hc.Stop(ctx)
	}
}

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%%%02x", s[i])
	}
	return b.String()
}

// stream: the event stream starts with the current state and ends up at the current state after any history.
func stream(r *kit.Run) {
	if !r.Phase("stream") {
		return
	}
	for i := 0; i < r.N(12, 150); i++ {
		g := r.Rand("stream", i)
		ring := cluster.NewRing(cluster.WithReplication(2), cluster.WithVirtualNodes(4))
		m := cluster.NewMembership(ring)
		hc := newDist(m, "self", 2)
		for n := 0; n < g.Intn(5); n++ {
			mutate(g, m, "self")
		}
		base := len(kit.RepoGoroutines())
		var streams []*sse
		for n := 0; n < 1+g.Intn(3); n++ {
			if s := open(r, hc.ManagementHTTPAddress()); s != nil {
				streams = append(streams, s)
			}
		}
		for _, s := range streams {
			if !s.wait(func(l []frame) bool { return len(l) >= 2 }) || s.list()[0].event != "members" || s.list()[1].event != "heartbeat" {
				r.Violate("stream-start", "the event stream does not start with the members and heartbeat snapshots: %v", s.list())
				continue
			}
			var doc membersDoc
			if err := json.Unmarshal([]byte(s.list()[0].data), &doc); err != nil || !reflect.DeepEqual(sorted(doc.Members), live(m)) {
				r.Violate("stream-start", "the event stream starts with %s, the membership holds %+v", s.list()[0].data, live(m))
			}
		}
		// Bursts of changes from several goroutines, each small enough to fit any subscriber's buffer.
		for burst := 0; burst < 25; burst++ {
			var wg sync.WaitGroup
			for w := 0; w < 4; w++ {
				gw := rand.New(rand.NewSource(g.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < 3; n++ {
						mutate(gw, m, "self")
					}
				}()
			}
			wg.Wait()
			final := live(m)
			for _, s := range streams {
				ok := s.wait(func(l []frame) bool { return reflect.DeepEqual(lastMembers(l), final) })
				for _, f := range s.list() {
					if !json.Valid([]byte(f.data)) {
						r.Violate("stream-frame", "an event carries %q", f.data)
					}
				}
				if !ok {
					r.Violate("stream-stale", "after all changes are over the event stream's last word is %v, the membership holds %+v", lastMembers(s.list()), final)
					break
				}
			}
			r.Add("stream bursts", 1)
			if r.Violations() > 0 {
				break
			}
		}
		r.Case(fmt.Sprint("stream", i), true)
		// Gone clients are noticed at the next events; shutdown ends the others.
		half := g.Intn(len(streams) + 1)
		for _, s := range streams[:half] {
			s.close()
		}
		if half == len(streams) && half > 0 {
			deadline := time.Now().Add(10 * time.Second)
			for len(kit.RepoGoroutines()) > base && time.Now().Before(deadline) {
				m.Upsert(cluster.NewNode("poke", fmt.Sprint("10.9.9.9:", g.Intn(9000)+1)))
				time.Sleep(5 * time.Millisecond)
			}
			if gs := kit.RepoGoroutines(); len(gs) > base {
				r.ViolateWith("stream-leak", gs, "%d goroutines remain after all streaming clients left (%d before)", len(gs), base)
			}
		}
		done := make(chan struct{})
		go func() { defer close(done); _ = hc.Stop(ctx) }()
		select {
		case <-done:
		case <-time.After(patience):
			r.ViolateWith("stop-stuck", kit.RepoGoroutines(), "Stop with %d open event streams does not return", len(streams)-half)
			return
		}
		for _, s := range streams[half:] {
			select {
			case <-s.done:
			case <-time.After(patience):
				r.Violate("stream-open", "an event stream is still open after the cache stopped")
			}
			s.close()
		}
	}
}

// lastMembers is the membership the stream last told.
func lastMembers(l []frame) []member {
	for n := len(l) - 1; n >= 0; n-- {
		if l[n].event == "members" {
			var doc membersDoc
			if json.Unmarshal([]byte(l[n].data), &doc) != nil {
				return nil
			}
			return sorted(doc.Members)
		}
	}
	return nil
}

type frame struct{ event, data string }

type sse struct {
	mu     sync.Mutex
	frames []frame
	done   chan struct{}
	body   io.Closer
	cancel context.CancelFunc
}

func open(r *kit.Run, addr string) *sse {
	c, cancel := context.WithCancel(ctx)
	req, _ := http.NewRequestWithContext(c, "GET", "http://"+addr+"/cluster/events", nil)
	tr := &http.Transport{DisableKeepAlives: true}
	resp, err := (&http.Client{Transport: tr}).Do(req)
	if err != nil || resp.StatusCode != 200 {
		cancel()
		r.Violate("stream-open", "GET /cluster/events: %v %v", resp, err)
		return nil
	}
	s := &sse{done: make(chan struct{}), body: resp.Body, cancel: cancel}
	go func() {
		defer close(s.done)
		sc := bufio.NewScanner(resp.Body)
		sc.Buffer(nil, 1<<20)
		var f frame
		for sc.Scan() {
			line := sc.Text()
			switch {
			case strings.HasPrefix(line, "event: "):
				f.event = line[7:]
			case strings.HasPrefix(line, "data: "):
				f.data = line[6:]
			case line == "" && f.event != "":
				s.mu.Lock()
				s.frames = append(s.frames, f)
				s.mu.Unlock()
				f = frame{}
			}
		}
	}()
	return s
}

func (s *sse) list() []frame { s.mu.Lock(); defer s.mu.Unlock(); return append([]frame{}, s.frames...) }
func (s *sse) close()        { s.cancel(); _ = s.body.Close(); <-s.done }
func (s *sse) wait(ok func([]frame) bool) bool {
	for t := time.Now(); time.Since(t) < 5*time.Second; time.Sleep(200 * time.Microsecond) {
		if ok(s.list()) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- controls

func eventually(f func() bool) bool {
	for t := time.Now(); time.Since(t) < 10*time.Second; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return false
}

func controls(r *kit.Run) {
	if !r.Phase("controls") {
		return
	}
	for i := 0; i < r.N(15, 200); i++ {
		g := r.Rand("controls", i)
		capacity := 5 + g.Intn(20)
		hc := newMem(0, hypercache.WithEvictionAlgorithm[backend.InMemory](algos[g.Intn(len(algos))]),
			hypercache.WithExpirationInterval[backend.InMemory](time.Hour),
			hypercache.WithEvictionInterval[backend.InMemory](time.Hour))
		addr := hc.ManagementHTTPAddress()
		total := capacity + 1 + g.Intn(20)
		short := 0
		for n := 0; n < total; n++ {
			ttl := time.Hour
			if g.Intn(3) == 0 {
				ttl = 2 * time.Millisecond
				short++
			}
			if err := hc.Set(ctx, fmt.Sprint("k", n), "v", ttl); err != nil {
				r.Violate("set", "Set = %v", err)
			}
		}
		time.Sleep(4 * time.Millisecond)
		if s := post(r, addr, "/trigger-expiration"); s/100 != 2 {
			r.Violate("control-status", "POST /trigger-expiration = %d", s)
		}
		if !eventually(func() bool { return hc.Count(ctx) == total-short }) {
			r.Violate("expire", "POST /trigger-expiration left %d items of %d, %d of them expired", hc.Count(ctx), total, short)
		}
		live := hc.Count(ctx)
		want := live
		if g.Intn(2) == 0 {
			want = min(live, 1+g.Intn(live))
			hc.SetCapacity(ctx, want)
		}
		if s := post(r, addr, "/evict"); s/100 != 2 {
			r.Violate("control-status", "POST /evict = %d", s)
		}
		if !eventually(func() bool { return hc.Count(ctx) == want }) {
			r.Violate("evict", "POST /evict left %d items, capacity %d", hc.Count(ctx), want)
		}
		if s := post(r, addr, "/clear"); s != 200 {
			r.Violate("control-status", "POST /clear = %d", s)
		}
		if n, a := hc.Count(ctx), hc.Allocation(); n != 0 || a != 0 {
			r.Violate("clear", "POST /clear left %d items (allocation %d)", n, a)
		}
		_ = hc.Set(ctx, "after", "v", time.Hour)
		if v, ok := hc.Get(ctx, "after"); !ok || v != "v" {
			r.Violate("clear", "a write after POST /clear is not there")
		}
		r.Case(fmt.Sprint("controls", i), true)
		_ = hc.Stop(ctx)
	}
	// A body above the configured limit is refused before anything happens.
	for i := 0; i < r.N(6, 60); i++ {
		g := r.Rand("limit", i)
		f := &fake{bus: eventbus.New()}
		lim := 16 + g.Intn(2000)
		srv := hypercache.NewManagementHTTPServer("127.0.0.1:0", hypercache.WithMgmtBodyLimit(lim))
		if err := srv.Start(ctx, f); err != nil {
			r.Violate("start", "Start = %v", err)
			return
		}
		for n := 0; n < 6; n++ {
			size := lim - 2 + n
			status, _, err := raw(srv.Address(), "POST", "/clear", "", nil, strings.Repeat("b", size))
			if size > lim && (f.clears.Load() != min(int64(n), 3) || err == nil && status < 400) {
				r.Violate("body-limit", "a body of %d bytes passed a limit of %d: %d (%d clears)", size, lim, status, f.clears.Load())
			}
			if size <= lim && (err != nil || status != 200) {
				r.Violate("body-limit", "a body of %d bytes within the limit of %d: %d %v", size, lim, status, err)
			}
		}
		r.Case(fmt.Sprint("limit", lim), true)
		sctx, cancel := context.WithTimeout(ctx, 5*time.Second)
		_ = srv.Shutdown(sctx)
		cancel()
	}
}

// ---------------------------------------------------------------- lifecycle

func lifecycle(r *kit.Run) {
	if !r.Phase("lifecycle") {
		return
	}
	client.CloseIdleConnections()
	for i := 0; i < r.N(40, 500); i++ {
		g := r.Rand("lifecycle", i)
		base := len(kit.RepoGoroutines())
		f := &fake{bus: eventbus.New()}
		holds := g.Intn(3) == 0
		if holds {
			f.hold = make(chan struct{})
		}
		srv := hypercache.NewManagementHTTPServer("127.0.0.1:0")
		if g.Intn(4) == 0 {
			if err := srv.Shutdown(ctx); err != nil {
				r.Violate("shutdown", "Shutdown of a server never started = %v", err)
			}
			if a := srv.Address(); a != "" {
				r.Violate("address", "a server never started is at %q", a)
			}
		}
		if err := srv.Start(ctx, f); err != nil {
			r.Violate("start", "Start = %v", err)
			return
		}
		if err := srv.Start(ctx, f); err != nil {
			r.Violate("start", "a repeated Start = %v", err)
		}
		addr := srv.Address()
		if g.Intn(3) == 0 {
			// the port is taken: a second server says so
			other := hypercache.NewManagementHTTPServer(addr)
			if err := other.Start(ctx, &fake{}); err == nil {
				r.Violate("busy-port", "a second server started on %s", addr)
				_ = other.Shutdown(ctx)
			}
		}
		var wg sync.WaitGroup
		pending := 0
		if holds {
			pending = 1 + g.Intn(3)
		}
		for n := 0; n < pending; n++ {
			wg.Add(1)
			go func() { defer wg.Done(); _, _, _ = raw(addr, "POST", "/clear", "", nil, "") }()
		}
		if pending > 0 && !eventually(func() bool { return int(f.holding.Load()) == pending }) {
			r.Violate("no-answer", "POST /clear did not reach the cache")
		}
		for n := 0; n < g.Intn(4); n++ {
			if s, _, err := raw(addr, "GET", "/health", "", nil, ""); err != nil || s != 200 {
				r.Violate("serve", "GET /health while %d requests are held = %d %v", pending, s, err)
			}
		}
		var streams []*sse
		if g.Intn(3) == 0 {
			for n := 0; n < 1+g.Intn(3); n++ {
				if s := open(r, addr); s != nil {
					streams = append(streams, s)
				}
			}
		}
		label := fmt.Sprintf("%d requests held, %d streams", pending, len(streams))
		done := make(chan struct{})
		go func() {
			defer close(done)
			sctx, cancel := context.WithTimeout(ctx, 10*time.Second)
			defer cancel()
			if err := srv.Shutdown(sctx); err != nil {
				r.Violate("shutdown", "%s: Shutdown = %v", label, err)
			}
			if err := srv.Shutdown(sctx); err != nil {
				r.Violate("shutdown", "%s: a repeated Shutdown = %v", label, err)
			}
		}()
		select {
		case <-done:
		case <-time.After(patience):
			r.ViolateWith("shutdown-stuck", kit.RepoGoroutines(), "%s: Shutdown does not return", label)
			return
		}
		wg.Wait()
		if holds && int(f.ctxDone.Load()) != pending {
			r.Violate("handler-context", "%s: only %d of the operations under way were told that the server shuts down", label, f.ctxDone.Load())
		}
		for _, s := range streams {
			s.close()
		}
		if err := srv.LastServeError(); err != nil {
			r.Violate("serve-error", "%s: LastServeError after a clean shutdown = %v", label, err)
		}
		if gs := kit.Drained(base, 10*time.Second); gs != nil {
			r.ViolateWith("leak", gs, "%s: %d goroutines remain after Shutdown (%d before)", label, len(gs), base)
		}
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			r.Violate("port-held", "%s: the port is still taken after Shutdown: %v", label, err)
		} else {
			_ = ln.Close()
		}
		r.Case(fmt.Sprint("lifecycle", i), true)
	}
}
