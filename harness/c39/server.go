package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"slices"
	"sort"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/srv"
)

type page struct {
	Keys      []string `json:"keys"`
	Next      string   `json:"next_cursor"`
	Total     int      `json:"total_matched"`
	Truncated bool     `json:"truncated"`
	Node      string   `json:"node"`
	Partial   []string `json:"partial_nodes"`
}

// server walks the pages of the running binary.
func server(r *kit.Run) {
	if !r.Phase("server") {
		return
	}
	for i := 0; i < r.N(2, 6) && r.Violations() == 0; i++ {
		g := r.Rand("server", i)
		n, rf := 2+g.Intn(2), 1+g.Intn(2)
		ss := srv.Cluster(n, rf, nil, "")
		if ss == nil {
			r.Inconclusive("the servers did not come together")
			return
		}
		walkAll(r, g, ss)
		srv.Stop(ss)
	}
}

func walkAll(r *kit.Run, g *rand.Rand, ss []*srv.Server) {
	all := map[string]bool{}
	for len(all) < 700 {
		k := fmt.Sprintf("%s%d", []string{"user:", "k", "é/", "a b", "x*", "q?", "", "+", "%41", "日"}[g.Intn(10)], g.Intn(1e6))
		all[k] = true
	}
	var items []map[string]any
	for k := range all {
		items = append(items, map[string]any{"key": k, "value": "v"})
	}
	sort.Slice(items, func(i, j int) bool { return items[i]["key"].(string) < items[j]["key"].(string) })
	for len(items) > 0 {
		m := min(100, len(items))
		b, _ := json.Marshal(map[string]any{"items": items[:m]})
		items = items[m:]
		rep, err := srv.Do("POST", ss[g.Intn(len(ss))].API, "/v1/cache/batch/put", b, "Content-Type", "application/json")
		if err != nil || rep.Status != 200 {
			r.Inconclusive(fmt.Sprintf("batch put: %v %d %s", err, rep.Status, rep.Body))
			return
		}
	}
	keys := sorted(all)
	for j := 0; j < r.N(60, 400) && r.Violations() == 0; j++ {
		pat := []string{"", "user:", "k*", "*1*", "é", "é*", "*/*", "a b", "a b*", "x\\**", "q\\?*", "+", "%41", "[a-z]*", "none", "日?*", "*"}[g.Intn(17)]
		var want []string
		for _, k := range keys {
			if matches(pat, k) {
				want = append(want, k)
			}
		}
		limit := []int{0, 1, 7, 50, 100, 499, 500, 501, 100000}[g.Intn(9)]
		if limit == 1 && len(want) > 100 {
			limit = 13
		}
		max := []int{0, 0, 5, len(want), len(want) + 1, len(want) - 1, 1 << 30}[g.Intn(7)]
		q := url.Values{}
		if pat != "" {
			q.Set("q", pat)
		}
		if limit > 0 {
			q.Set("limit", fmt.Sprint(limit))
		}
		cut := false
		if max > 0 {
			q.Set("max", fmt.Sprint(max))
			if cut = max < len(want); cut {
				want = want[:max]
			}
		}
		step := 100
		if limit > 0 {
			step = min(limit, 500)
		}
		var got []string
		cursor, pages := "", 0
		for {
			s := ss[g.Intn(len(ss))] // any node continues what another began
			if cursor != "" {
				q.Set("cursor", cursor)
			}
			rep, err := srv.Do("GET", s.API, "/v1/cache/keys?"+q.Encode(), nil)
			var p page
			if err != nil || rep.Status != 200 || json.Unmarshal(rep.Body, &p) != nil {
				r.Violate("server:error", "GET /v1/cache/keys?%s: %v %d %.200s", q.Encode(), err, rep.Status, rep.Body)
				return
			}
			pages++
			r.Add("pages", 1)
			if p.Truncated != cut || len(p.Partial) > 0 || p.Total != len(want) || p.Node != s.ID || len(p.Keys) > step || p.Keys == nil {
				r.Violate("server:page", "GET /v1/cache/keys?%s on %s: truncated=%v (want %v), partial %v, total %d (want %d), node %s, %d keys", q.Encode(), s.ID, p.Truncated, cut, p.Partial, p.Total, len(want), p.Node, len(p.Keys))
				return
			}
			got = append(got, p.Keys...)
			if p.Next == "" {
				break
			}
			if cursor = p.Next; pages > len(want)+2 {
				r.Violate("server:endless", "paging through %d keys with limit %d does not end after %d pages", len(want), limit, pages)
				return
			}
		}
		r.Case(fmt.Sprintf("server/%d", j), len(want) > 0)
		r.Max("pages of one listing", int64(pages))
		if !slices.Equal(got, want) {
			r.Violate("server:keys", "paging through %q with limit %d max %d visits %d keys of %d: %s", pat, limit, max, len(got), len(want), diff(got, want))
			return
		}
	}
	for _, q := range []string{"cursor=-1", "cursor=x", "limit=0", "limit=-3", "limit=x", "max=0", "max=-1", "max=y", "q=%5B", "q=a%5B", "limit=99999999999999999999", "cursor=1e3"} {
		rep, err := srv.Do("GET", ss[0].API, "/v1/cache/keys?"+q, nil)
		r.Case("server/bad "+q, true)
		if err != nil || rep.Status != 400 {
			r.Violate("server:bad-query", "GET /v1/cache/keys?%s: %v %d %.200s", q, err, rep.Status, rep.Body)
		}
	}
	rep, err := srv.Do("GET", ss[0].API, "/v1/cache/keys?cursor=100000", nil)
	var p page
	if err != nil || rep.Status != 200 || json.Unmarshal(rep.Body, &p) != nil || len(p.Keys) > 0 || p.Next != "" {
		r.Violate("server:past-end", "a cursor past the end: %v %d %.200s", err, rep.Status, rep.Body)
	}
	// One server dies: until it is noticed and after, its absence is reported; once it is forgotten, it is not.
	last := ss[len(ss)-1]
	last.Kill()
	for t := time.Now(); time.Since(t) < 5*time.Second; time.Sleep(150 * time.Millisecond) {
		rep, err := srv.Do("GET", ss[0].API, "/v1/cache/keys?limit=500", nil)
		var p page
		if err != nil || rep.Status != 200 || json.Unmarshal(rep.Body, &p) != nil {
			r.Violate("server:dead-peer", "listing with a dead peer: %v %d %.200s", err, rep.Status, rep.Body)
			return
		}
		m, err := srv.Do("GET", ss[0].Mgmt, "/cluster/members", nil)
		if err != nil {
			continue
		}
		known := false
		members, _ := m.JSON()["members"].([]any)
		for _, x := range members {
			mm, _ := x.(map[string]any)
			for _, v := range mm {
				known = known || v == last.ID
			}
		}
		r.Add("listings with a dead server", 1)
		if known && !dcl.Has(p.Partial, last.ID) {
			r.Violate("server:silent-partial", "%s is dead and still a member, but the listing does not report it: partial %v, members %s", last.ID, p.Partial, m.Body)
			return
		}
		if !known {
			break
		}
	}
}
