// C04: client failover masks dead endpoints and never retries a definitive answer.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/farm"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

func main() {
	kit.Main("C04", "random assignments of behaviours (success, 4xx, 5xx, draining, connection refused/reset/closed, garbage, hang) to 1..6 endpoints for every command, "+
		"the recorded request sequence compared with the failover rule; cancellation at a random contact; distribution of first and second contacts; "+
		"non-trivial = at least two endpoints of which one fails, or a cancelled call, or a distribution round", run)
}

func run(r *kit.Run) {
	f := farm.New(6)
	defer f.Close()
	if r.Phase("failover") {
		for i := 0; i < r.N(5000, 120000) && r.Violations() < 20; i++ {
			failover(r, f, r.Rand("failover", i), i)
		}
	}
	if r.Phase("cancel") {
		for i := 0; i < r.N(400, 8000); i++ {
			cancelled(r, f, r.Rand("cancel", i), i)
		}
	}
	if r.Phase("spread") {
		for i := 0; i < r.N(12, 120); i++ {
			spread(r, f, r.Rand("spread", i), i)
		}
	}
	if r.Phase("clients") {
		manyClients(r, f)
	}
	if r.Phase("parallel") {
		for i := 0; i < r.N(20, 400); i++ {
			parallel(r, f, r.Rand("parallel", i), i)
		}
	}
}

type behaviour struct {
	name       string
	reply      func(q farm.Req) farm.Reply
	definitive bool
	status     int // HTTP status, 0 for none
	code       string
}

func envelope(status int, code string) func(farm.Req) farm.Reply {
	b, _ := json.Marshal(map[string]string{"code": code, "error": "scripted " + code, "details": "d"})
	return func(farm.Req) farm.Reply {
		return farm.Reply{Status: status, Body: b, Header: map[string]string{"Content-Type": "application/json"}}
	}
}

func mode(m string) func(farm.Req) farm.Reply {
	return func(farm.Req) farm.Reply { return farm.Reply{Mode: m, Status: 200} }
}

var behaviours = []behaviour{
	{"ok", farm.OK, true, 200, ""},
	{"400", envelope(400, "BAD_REQUEST"), true, 400, "BAD_REQUEST"},
	{"401", envelope(401, "UNAUTHORIZED"), true, 401, "UNAUTHORIZED"},
	{"403", envelope(403, "FORBIDDEN"), true, 403, "FORBIDDEN"},
	{"404", envelope(404, "NOT_FOUND"), true, 404, "NOT_FOUND"},
	{"408", envelope(408, "TIMEOUT"), true, 408, "TIMEOUT"},
	{"409", envelope(409, "CONFLICT"), true, 409, "CONFLICT"},
	{"413", envelope(413, "TOO_LARGE"), true, 413, "TOO_LARGE"},
	{"429", envelope(429, "SLOW_DOWN"), true, 429, "SLOW_DOWN"},
	{"499", envelope(499, "ODD"), true, 499, "ODD"},
	{"404-plain", func(farm.Req) farm.Reply { return farm.Reply{Status: 404, Body: []byte("nope")} }, true, 404, ""},
	{"400-draining-text", func(farm.Req) farm.Reply { return farm.Reply{Status: 400, Body: []byte("DRAINING")} }, true, 400, ""},
	{"500", envelope(500, "INTERNAL"), false, 500, "INTERNAL"},
	{"500-notfound-code", envelope(500, "NOT_FOUND"), false, 500, "NOT_FOUND"},
	{"501", envelope(501, "NOPE"), false, 501, "NOPE"},
	{"502-html", func(farm.Req) farm.Reply { return farm.Reply{Status: 502, Body: []byte("<html>bad gateway</html>")} }, false, 502, ""},
	{"503-draining", envelope(503, "DRAINING"), false, 503, "DRAINING"},
	{"503-empty", func(farm.Req) farm.Reply { return farm.Reply{Status: 503} }, false, 503, ""},
	{"504", envelope(504, "INTERNAL"), false, 504, "INTERNAL"},
	{"599", envelope(599, "WHO"), false, 599, "WHO"},
	{"reset", mode("reset"), false, 0, ""},
	{"close", mode("close"), false, 0, ""},
	{"garbage", mode("garbage"), false, 0, ""},
	{"hang", mode("hang"), false, 0, ""},
	{"refused", nil, false, 0, ""},
	{"unusable", nil, false, 0, ""},
}

// unusable addresses cannot even be turned into a request or dialled: for failover they are dead endpoints.
var unusable = []string{"http://[::1", "http://two words:80", "http://host:port", "gopher://host:70", "://nowhere", "http://%zz:80", "http://\x7fhost:80"}

// setup makes a client over n endpoints with the given behaviours; seeds may be repeated or spelled with
// surrounding blanks and slashes.
func endpoints(r *kit.Run, f *farm.Farm, rng *rand.Rand, pick []behaviour) (urls []string, bySrv map[int]behaviour, release func()) {
	bySrv = map[int]behaviour{}
	var rel []func()
	for i, b := range pick {
		if b.name == "unusable" {
			urls = append(urls, unusable[rng.Intn(len(unusable))])
			continue
		}
		if b.name == "refused" {
			u, fn := farm.Refused()
			rel = append(rel, fn)
			urls = append(urls, u)
			continue
		}
		bySrv[i] = b
		urls = append(urls, f.URL(i))
	}
	rng.Shuffle(len(urls), func(i, j int) { urls[i], urls[j] = urls[j], urls[i] })
	return urls, bySrv, func() {
		for _, fn := range rel {
			fn()
		}
	}
}

func failover(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	n := 1 + rng.Intn(6)
	pick := make([]behaviour, n)
	hangs := 0
	failing := rng.Intn(3) // 0: any, 1: mostly failing, 2: all failing
	for j := range pick {
		for {
			pick[j] = behaviours[rng.Intn(len(behaviours))]
			if pick[j].name == "hang" {
				if hangs > 0 || rng.Intn(4) != 0 {
					continue
				}
				hangs++
			}
			if pick[j].definitive && (failing == 2 || failing == 1 && rng.Intn(4) != 0) {
				continue
			}
			break
		}
	}
	urls, bySrv, release := endpoints(r, f, rng, pick)
	defer release()
	timeout := 20 * time.Second
	if hangs > 0 {
		timeout = 150 * time.Millisecond
	}
	f.Script(func(q farm.Req) farm.Reply { return bySrv[q.Server].reply(q) })
	seeds := append([]string(nil), urls...)
	dup := rng.Intn(4) == 0
	if dup {
		seeds = append(seeds, " "+urls[rng.Intn(len(urls))]+"/ ")
	}
	c, err := client.New(seeds, client.WithHTTPClient(farm.FreshClient(timeout)))
	if err != nil {
		r.Violate("construct", "New(%q): %v", seeds, err)
		return
	}
	cmd := farm.Cmds[rng.Intn(len(farm.Cmds))]
	var cerr error
	r.Guard(func() { cerr = cmd.Run(context.Background(), c) })
	log := f.Log()
	names := make([]string, len(pick))
	fails := 0
	for j, b := range pick {
		names[j] = b.name
		if !b.definitive {
			fails++
		}
		r.Seen("behaviour", b.name)
	}
	r.Seen("command", cmd.Name)
	r.Seen("contacts", fmt.Sprint(len(log)))
	where := fmt.Sprintf("%s over %v (seeds repeated: %v): contacted %v, err %v", cmd.Name, names, dup, contacted(log), cerr)
	judge(r, where, log, bySrv, fails == n, cerr, dup)
	r.Add("requests_observed", int64(len(log)))
	r.Case(fmt.Sprint("failover", cmd.Name, names), n > 1 && fails > 0)
	if i < 2 {
		r.Sample("failover", where)
	}
}

func contacted(log []farm.Req) []int {
	var out []int
	for _, q := range log {
		out = append(out, q.Server)
	}
	return out
}

func judge(r *kit.Run, where string, log []farm.Req, bySrv map[int]behaviour, allFail bool, cerr error, dup bool) {
	seen := map[int]bool{}
	for k, q := range log {
		b := bySrv[q.Server]
		if seen[q.Server] {
			sig := "contacted-twice"
			if dup {
				sig = "contacted-twice-repeated-seed"
			}
			r.Violate(sig, "%s", where)
		}
		seen[q.Server] = true
		if b.definitive && k != len(log)-1 {
			r.Violate("retried-definitive:"+b.name, "an endpoint was contacted after the definitive answer %s: %s", b.name, where)
		}
	}
	var se *client.StatusError
	has := errors.As(cerr, &se)
	if allFail {
		if len(seen) != len(bySrv) {
			r.Violate("gave-up-early", "not every endpoint was tried: %s", where)
		}
		if cerr == nil {
			r.Violate("false-success", "%s", where)
			return
		}
		if !errors.Is(cerr, client.ErrAllEndpointsFailed) {
			r.Violate("all-failed-unreported", "%s", where)
		}
		// With only status answers, the last one must be reachable.
		only := len(log) > 0 && len(bySrv) == len(log)
		for s := range bySrv {
			only = only && bySrv[s].status != 0
		}
		if only && len(log) == len(seen) && !refusedAny(where) {
			last := bySrv[log[len(log)-1].Server]
			if !has || se.HTTPStatus != last.status || se.Code != last.code {
				r.Violate("last-status-lost", "the last status error (%d %s) is not reported: %s", last.status, last.code, where)
			}
		}
		return
	}
	if len(log) == 0 {
		r.Violate("nobody-contacted", "%s", where)
		return
	}
	last := bySrv[log[len(log)-1].Server]
	if !last.definitive {
		r.Violate("not-masked", "an endpoint answers definitively but the call ended at a failing one: %s", where)
		return
	}
	switch {
	case last.status == 200:
		if cerr != nil {
			r.Violate("success-reported-as-failure", "%s", where)
		}
	case cerr == nil:
		r.Violate("false-success", "%s", where)
	case !has || se.HTTPStatus != last.status || se.Code != last.code:
		r.Violate("wrong-answer", "the definitive answer was %d %s: %s", last.status, last.code, where)
	case errors.Is(cerr, client.ErrAllEndpointsFailed):
		r.Violate("definitive-reported-as-all-failed", "%s", where)
	}
}

func refusedAny(where string) bool {
	return strings.Contains(where, "refused") || strings.Contains(where, "unusable")
}

// cancelled ends the caller's context while the k-th contacted endpoint handles the request.
func cancelled(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	n := 2 + rng.Intn(5)
	at := rng.Intn(n + 1) // 0: before the call
	cmd := farm.Cmds[rng.Intn(len(farm.Cmds))]
	ctx, cancel := context.WithCancelCause(context.Background())
	defer cancel(nil)
	var cnt, after atomic.Int64
	var ended atomic.Bool
	kind := rng.Intn(3)
	f.Script(func(q farm.Req) farm.Reply {
		if ended.Load() {
			after.Add(1)
		}
		k := cnt.Add(1)
		if int(k) == at {
			ended.Store(true)
			cancel(nil)
			switch kind {
			case 0:
				return farm.Reply{Mode: "hang"}
			case 1:
				return farm.Reply{Mode: "reset", Delay: 2 * time.Millisecond}
			default:
				return farm.Reply{Status: 503, Delay: 2 * time.Millisecond}
			}
		}
		return farm.Reply{Status: 500 + rng2(q.Seq)}
	})
	if at == 0 {
		ended.Store(true)
		cancel(nil)
	}
	var urls []string
	for j := 0; j < n; j++ {
		urls = append(urls, f.URL(j))
	}
	c, _ := client.New(urls, client.WithHTTPClient(farm.FreshClient(10*time.Second)))
	start := time.Now()
	err := cmd.Run(ctx, c)
	took := time.Since(start)
	time.Sleep(3 * time.Millisecond) // a stray contact would arrive now
	where := fmt.Sprintf("%s, %d endpoints, context ended at contact %d: %d contacts, err %v", cmd.Name, n, at, len(f.Log()), err)
	if after.Load() > 0 || len(f.Log()) > at {
		r.Violate("tried-after-cancel", "%s", where)
	}
	if err == nil {
		r.Violate("false-success", "%s", where)
	} else if kind == 0 && !errors.Is(err, context.Canceled) {
		r.Violate("cancel-cause-lost", "%s", where)
	}
	if took > 5*time.Second {
		r.Violate("cancel-ignored", "returned after %v: %s", took, where)
	}
	r.Add("cancellations", 1)
	r.Case(fmt.Sprint("cancel", cmd.Name, n, at, kind), true)
}

func rng2(s int64) int { return int(s % 5) }

// spread checks that first contacts, and the contact after a failed one, are spread over the endpoints.
func spread(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	n := 2 + rng.Intn(5)
	rounds := 60 * n
	bad := -1
	if i%2 == 1 {
		bad = rng.Intn(n)
	}
	f.Script(func(q farm.Req) farm.Reply {
		if q.Server == bad {
			return farm.Reply{Status: 503}
		}
		return farm.OK(q)
	})
	var urls []string
	for j := 0; j < n; j++ {
		urls = append(urls, f.URL(j))
	}
	c, _ := client.New(urls)
	cmd := farm.Cmds[rng.Intn(len(farm.Cmds)-1)]
	for k := 0; k < rounds; k++ {
		if err := cmd.Run(context.Background(), c); err != nil {
			r.Violate("spread-failed", "%s with %d healthy endpoints: %v", cmd.Name, n, err)
			return
		}
	}
	cnt := make([]int, n)
	ok := 0
	for _, q := range f.Log() {
		cnt[q.Server]++
		if q.Server != bad {
			ok++
		}
	}
	if ok != rounds {
		r.Violate("answers-repeated", "%d commands made %d requests to healthy endpoints", rounds, ok)
	}
	healthy := n
	if bad >= 0 {
		healthy--
	}
	for j, k := range cnt {
		if j == bad {
			// first in a uniformly random order with probability 1/n
			if k > rounds*4/5 && n > 2 || k == 0 {
				r.Violate("pinned", "failing endpoint %d of %d was tried first in %d of %d calls", j, n, k, rounds)
			}
			continue
		}
		// expectation rounds/healthy >= 60; less than a quarter of it has probability far below 1e-9
		if k < rounds/healthy/4 {
			r.Violate("pinned", "requests over %d endpoints (failing: %d): %v", n, bad, cnt)
			break
		}
	}
	r.Add("spread_requests", int64(rounds))
	r.Sample("spread", map[string]any{"endpoints": n, "failing": bad, "requests_per_endpoint": cnt})
	r.Case(fmt.Sprint("spread", i, n, bad), true)
}

// manyClients: fresh clients must not all start at the same endpoint.
func manyClients(r *kit.Run, f *farm.Farm) {
	f.Script(farm.OK)
	cnt := make([]int, 4)
	var urls []string
	for j := 0; j < 4; j++ {
		urls = append(urls, f.URL(j))
	}
	for k := 0; k < 240; k++ {
		c, _ := client.New(urls)
		_, _ = c.Get(context.Background(), "k")
	}
	for _, q := range f.Log() {
		cnt[q.Server]++
	}
	for _, k := range cnt {
		if k < 15 {
			r.Violate("pinned-first", "first contacts of 240 fresh clients: %v", cnt)
			break
		}
	}
	r.Sample("first-contacts", cnt)
	r.Case("clients", true)
}

// parallel: the rule holds for every one of many concurrent calls on one client.
func parallel(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	n := 2 + rng.Intn(5)
	pick := make([]behaviour, n)
	for j := range pick {
		for {
			pick[j] = behaviours[rng.Intn(len(behaviours))]
			if pick[j].name != "hang" && pick[j].reply != nil {
				break
			}
		}
	}
	allFail := true
	for _, b := range pick {
		allFail = allFail && !b.definitive
	}
	urls, bySrv, release := endpoints(r, f, rng, pick)
	defer release()
	f.Script(func(q farm.Req) farm.Reply { return bySrv[q.Server].reply(q) })
	c, _ := client.New(urls, client.WithHTTPClient(farm.FreshClient(20*time.Second)))
	const g = 8
	errs := make([]error, g*4)
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4; k++ {
				_, errs[w*4+k] = c.Get(context.Background(), fmt.Sprintf("w%d-%d", w, k))
			}
		}()
	}
	wg.Wait()
	byKey := map[string][]farm.Req{}
	for _, q := range f.Log() {
		byKey[q.URI] = append(byKey[q.URI], q)
	}
	for w := 0; w < g*4; w++ {
		log := byKey[fmt.Sprintf("/v1/cache/w%d-%d", w/4, w%4)]
		judge(r, fmt.Sprintf("concurrent Get %d: contacted %v, err %v", w, contacted(log), errs[w]), log, bySrv, allFail, errs[w], false)
	}
	r.Add("parallel_calls", g*4)
	r.Case(fmt.Sprint("parallel", i), true)
}
