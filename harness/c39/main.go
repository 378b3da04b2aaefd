// C39: cluster-wide key listing is complete and free of duplicates.
//
// Oracle: what every node holds is read key by key through the transport's own door and matched by an independent
// matcher; a listing has to be the sorted union of the contents of the nodes it does not report as partial, cut off only
// at the cap and then marked so. Pages of the running server are walked to the end and compared with the same union.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

func main() {
	kit.Main("C39", "a listing of a cluster with at least one matching key, or with a peer out of reach", func(r *kit.Run) {
		whole(r)
		partial(r)
		moving(r)
		shards(r)
		hostile(r)
		server(r)
	})
}

var bg = context.Background()

var parts = []string{"a", "b", "user:", "user", "/", "x/y", "*", "?", "[a]", "\\", "é", "日", " ", "%2F", "0", "1", "10", "\x00", "-", "A", ".."}

func name(g *rand.Rand, odd bool) string {
	for {
		var b strings.Builder
		for i := 0; i <= g.Intn(4); i++ {
			b.WriteString(parts[g.Intn(len(parts))])
		}
		if odd && g.Intn(8) == 0 {
			b.WriteByte(byte(128 + g.Intn(128)))
		}
		if g.Intn(2) == 0 {
			fmt.Fprint(&b, g.Intn(200))
		}
		if g.Intn(60) == 0 {
			b.WriteString(strings.Repeat("long", 100+g.Intn(400)))
		}
		if strings.TrimSpace(b.String()) != "" {
			return b.String()
		}
	}
}

func pattern(g *rand.Rand, keys []string) string {
	if len(keys) > 0 && g.Intn(2) == 0 {
		k := keys[g.Intn(len(keys))]
		switch g.Intn(4) {
		case 0: // a prefix of a key, perhaps cutting a rune
			return k[:g.Intn(len(k)+1)]
		case 1:
			return k
		case 2:
			return k[:g.Intn(len(k)+1)] + "*"
		}
		return "*" + k[g.Intn(len(k)):]
	}
	switch g.Intn(9) {
	case 0, 1:
		return ""
	case 2:
		return "*"
	case 3:
		return []string{"user*", "user:?", "?", "??", "*1*", "[a-c]*", "[^a]*", "*/*", "*/*/*", "\\**", "*\\?*", "é*", "[日é]*"}[g.Intn(13)]
	case 4:
		return []string{"[", "[]", "a[", "*[", "[a-", "*\\", "[z-a]", "[^", "?[]a"}[g.Intn(9)]
	case 5:
		return "nothing-has-this"
	}
	return parts[g.Intn(len(parts))]
}

// matches is the documented rule: a glob if there is a glob character, a prefix otherwise.
func matches(pat, key string) bool {
	if !strings.ContainsAny(pat, "*?[") {
		return strings.HasPrefix(key, pat)
	}
	ok, err := path.Match(pat, key)
	return err == nil && ok
}

func broken(pat string) bool {
	_, err := path.Match(pat, "")
	return strings.ContainsAny(pat, "*?[") && err != nil
}

type world struct {
	cl   *dcl.Cluster
	keys map[string]bool            // everything ever written
	held map[string]map[string]bool // node -> keys it holds
}

func (w *world) look() {
	w.held = map[string]map[string]bool{}
	for _, n := range w.cl.Nodes {
		w.held[n.ID] = map[string]bool{}
		for k := range w.keys {
			if _, ok := w.cl.Local(n.ID, k); ok {
				w.held[n.ID][k] = true
			}
		}
	}
}

func (w *world) union(pat string, skip []string) []string {
	set := map[string]bool{}
	for id, ks := range w.held {
		if dcl.Has(skip, id) {
			continue
		}
		for k := range ks {
			if matches(pat, k) {
				set[k] = true
			}
		}
	}
	out := make([]string, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func build(r *kit.Run, g *rand.Rand, c dcl.Conf) *world {
	sh := []int{1, 2, 8, 64, 64, 200}[g.Intn(6)]
	r.Seen("shards", fmt.Sprint(sh))
	c.Opts = func(int) []backend.DistMemoryOption {
		return []backend.DistMemoryOption{backend.WithDistShardCount(sh), backend.WithDistWriteConsistency(backend.ConsistencyOne)}
	}
	w := &world{cl: dcl.New(c), keys: map[string]bool{}}
	for i, n := 0, g.Intn(60); i < n; i++ {
		w.keys[name(g, true)] = true
	}
	for _, k := range sorted(w.keys) {
		switch g.Intn(5) {
		case 0: // a copy left on some node by an earlier ring
			_ = w.cl.Net.In.ForwardSet(bg, w.cl.Any(g).ID, dcl.Item(k, "v", 0), false)
		default:
			_ = w.cl.Any(g).DM.Set(bg, dcl.Item(k, "v", 0))
		}
		if g.Intn(8) == 0 {
			_ = w.cl.Any(g).DM.Remove(bg, k)
		}
	}
	w.look()
	return w
}

func sorted(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// judge compares one listing with what the nodes hold.
func judge(r *kit.Run, w *world, from, pat string, max int, res backend.ListKeysResult, must, may []string, what string) bool {
	ids := map[string]bool{}
	for _, n := range w.cl.Nodes {
		ids[n.ID] = true
	}
	seen := map[string]bool{}
	for _, p := range res.PartialNodes {
		if seen[p] || !ids[p] || p == from {
			r.Violate(what+":partial-list", "listing %q from %s reports partial nodes %v", pat, from, res.PartialNodes)
			return false
		}
		seen[p] = true
		if !dcl.Has(must, p) && !dcl.Has(may, p) {
			r.Violate(what+":false-partial", "listing %q from %s reports %v as partial though only %v (perhaps %v) is out of reach", pat, from, res.PartialNodes, must, may)
			return false
		}
	}
	for _, p := range must {
		if !seen[p] {
			r.Violate(what+":silent-partial", "listing %q from %s does not report %s, which it could not reach (reported %v)", pat, from, p, res.PartialNodes)
			return false
		}
	}
	want := w.union(pat, res.PartialNodes)
	cap := max
	if cap <= 0 {
		cap = 10000
	}
	if cut := len(want) > cap; cut != res.Truncated {
		r.Violate(what+":truncated-flag", "listing %q from %s with a cap of %d says truncated=%v though %d keys match", pat, from, max, res.Truncated, len(want))
		return false
	}
	if len(want) > cap {
		want = want[:cap]
	}
	if !slices.Equal(want, res.Keys) {
		r.ViolateWith(what+":keys", map[string]any{"got": quoted(res.Keys), "want": quoted(want), "partial": res.PartialNodes},
			"listing %q from %s with a cap of %d has %d keys, the nodes hold %d: %s", pat, from, max, len(res.Keys), len(want), diff(res.Keys, want))
		return false
	}
	return true
}

func quoted(ks []string) []string {
	var out []string
	for _, k := range ks {
		out = append(out, strconv.Quote(k))
	}
	return out
}

func diff(got, want []string) string {
	for i, k := range got {
		if i > 0 && got[i-1] == k {
			return fmt.Sprintf("%q twice", k)
		}
		if i > 0 && got[i-1] > k {
			return fmt.Sprintf("%q after %q", k, got[i-1])
		}
		if !dcl.Has(want, k) {
			return fmt.Sprintf("%q listed", k)
		}
	}
	for _, k := range want {
		if !dcl.Has(got, k) {
			return fmt.Sprintf("%q missing", k)
		}
	}
	return "?"
}

func conf(g *rand.Rand) dcl.Conf {
	c := dcl.Conf{N: 1 + g.Intn(5), RF: 1 + g.Intn(3), HTTP: g.Intn(3) == 0, Shared: g.Intn(3) == 0}
	c.Plain = !c.HTTP && g.Intn(2) == 0
	return c
}

func whole(r *kit.Run) {
	if !r.Phase("whole") {
		return
	}
	for i := 0; i < r.N(70, 2000) && r.Violations() == 0; i++ {
		g := r.Rand("whole", i)
		c := conf(g)
		w := build(r, g, c)
		keys := sorted(w.keys)
		for j := 0; j < 25; j++ {
			pat := pattern(g, keys)
			n := w.cl.Any(g)
			all := w.union(pat, nil)
			max := []int{0, 1, len(all) - 1, len(all), len(all) + 1, 1 << 40, 3, -5}[g.Intn(8)]
			res, err := n.DM.ListKeys(bg, pat, max)
			r.Case(fmt.Sprintf("whole/%d/%d", i, j), len(all) > 0)
			r.Add("listings", 1)
			if broken(pat) {
				if err == nil {
					r.Violate("whole:bad-pattern", "listing with the malformed pattern %q succeeds with %d keys", pat, len(res.Keys))
				}
				r.Seen("pattern", "malformed")
				continue
			}
			if err != nil {
				r.Violate("whole:error", "listing %q fails: %v", pat, err)
				break
			}
			r.Seen("pattern", kind(pat))
			r.Seen("cap", fmt.Sprint(max > 0 && max < len(all), max == len(all), max <= 0))
			r.Seen("cluster", fmt.Sprintf("n%d rf%d http=%v", c.N, c.RF, c.HTTP))
			if !judge(r, w, n.ID, pat, max, res, nil, nil, "whole") {
				break
			}
		}
		r.Max("keys in a cluster", int64(len(keys)))
		w.cl.Stop()
	}
}

func kind(p string) string {
	switch {
	case p == "":
		return "empty"
	case strings.ContainsAny(p, "*?["):
		return "glob"
	}
	return "prefix"
}

func partial(r *kit.Run) {
	if !r.Phase("partial") {
		return
	}
	for i := 0; i < r.N(60, 1500) && r.Violations() == 0; i++ {
		g := r.Rand("partial", i)
		c := conf(g)
		c.N, c.Plain, c.Shared = 2+g.Intn(4), false, false
		w := build(r, g, c)
		cl := w.cl
		cl.Net.Generic.Store(g.Intn(2) == 0)
		keys := sorted(w.keys)
		for j := 0; j < 12 && r.Violations() == 0; j++ {
			cl.Faults(g, g.Intn(2), g.Intn(4))
			n := cl.Any(g)
			ctx, cancel := context.WithCancel(bg)
			var must, may []string
			for _, m := range cl.Nodes {
				if m != n && !cl.Net.Reaches(n.ID, m.ID) {
					must = append(must, m.ID)
				}
			}
			how := "faults"
			switch g.Intn(6) {
			case 0: // the node suspects someone
				m := cl.Any(g)
				n.M.Mark(cluster.NodeID(m.ID), cluster.NodeSuspect)
				if m != n {
					may = append(may, m.ID)
				}
				how = "suspect"
			case 1: // someone does not answer
				m := cl.Any(g)
				cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) {
					if c.Op == "keys" || c.To == m.ID {
						if c.To == m.ID {
							return false, false, time.Minute
						}
					}
					return false, false, 0
				})
				if m != n && !dcl.Has(must, m.ID) {
					must = append(must, m.ID)
				}
				cancel()
				ctx, cancel = context.WithTimeout(bg, 300*time.Millisecond)
				how = "hung"
			case 2: // answers get lost
				m := cl.Any(g)
				cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) { return false, c.To == m.ID, 0 })
				if m != n && !dcl.Has(must, m.ID) {
					must = append(must, m.ID)
				}
				how = "lost answer"
			}
			pat := pattern(g, keys)
			max := []int{0, 0, 3}[g.Intn(3)]
			start := time.Now()
			res, err := n.DM.ListKeys(ctx, pat, max)
			took := time.Since(start)
			cancel()
			cl.Net.Calm()
			n.M.Mark(cluster.NodeID(n.ID), cluster.NodeAlive)
			for _, m := range may {
				n.M.Mark(cluster.NodeID(m), cluster.NodeAlive)
			}
			if took > 20*time.Second {
				r.Violate("partial:stuck", "listing with a deadline of 300ms takes %v", took)
			}
			if broken(pat) {
				continue
			}
			if err != nil {
				r.Violate("partial:error", "listing %q with %v unreachable fails: %v", pat, must, err)
				break
			}
			r.Case(fmt.Sprintf("partial/%d/%d", i, j), len(must)+len(may) > 0)
			r.Add("listings with peers out of reach", 1)
			r.Seen("fault", fmt.Sprint(how, " ", min(len(must), 3)))
			judge(r, w, n.ID, pat, max, res, must, may, "partial")
		}
		cl.Net.Heal()
		for _, n := range cl.Nodes {
			if res, err := n.DM.ListKeys(bg, "", 0); err != nil {
				r.Violate("healed:error", "listing after everything healed fails: %v", err)
			} else {
				judge(r, w, n.ID, "", 0, res, nil, nil, "healed")
			}
		}
		cl.Stop()
	}
}

// moving lists while writes and removals go on: keys nobody touches are all there, keys nobody wrote are not.
func moving(r *kit.Run) {
	if !r.Phase("moving") {
		return
	}
	for i := 0; i < r.N(8, 120) && r.Violations() == 0; i++ {
		g := r.Rand("moving", i)
		c := conf(g)
		w := build(r, g, c)
		stable := w.union("", nil)
		var stop atomic.Bool
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop.Load() {
					key := fmt.Sprintf("~moving-%d", h.Intn(50))
					if h.Intn(2) == 0 {
						_ = w.cl.Any(h).DM.Set(bg, dcl.Item(key, "v", 0))
					} else {
						_ = w.cl.Any(h).DM.Remove(bg, key)
					}
				}
			}()
		}
		for j := 0; j < 40 && r.Violations() == 0; j++ {
			n := w.cl.Any(g)
			res, err := n.DM.ListKeys(bg, "", 0)
			r.Case(fmt.Sprintf("moving/%d/%d", i, j), true)
			r.Add("listings under way", 1)
			if err != nil || len(res.PartialNodes) > 0 || res.Truncated {
				r.Violate("moving:refused", "listing during writes: %v, partial %v, truncated %v", err, res.PartialNodes, res.Truncated)
				break
			}
			var rest []string
			for x, k := range res.Keys {
				if x > 0 && res.Keys[x-1] >= k {
					r.Violate("moving:order", "%q after %q in a listing during writes", k, res.Keys[x-1])
				}
				if !strings.HasPrefix(k, "~moving-") {
					rest = append(rest, k)
				} else {
					r.Add("moving keys listed", 1)
				}
			}
			if !slices.Equal(rest, stable) {
				r.Violate("moving:keys", "listing during writes of other keys: %s", diff(rest, stable))
			}
		}
		stop.Store(true)
		wg.Wait()
		w.cl.Stop()
	}
}

// shards asks one peer over HTTP for all its keys, whatever its number of shards.
func shards(r *kit.Run) {
	if !r.Phase("shards") {
		return
	}
	counts := []int{1, 2, 64, 1024, 1025, 1500}
	if !r.Quick() {
		counts = append(counts, 3, 1000, 1023, 1026, 2000, 2049, 5000)
	}
	for i, sh := range counts {
		g := r.Rand("shards", i)
		cl := dcl.New(dcl.Conf{N: 2, RF: 1, HTTP: true, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistShardCount(sh)}
		}})
		w := &world{cl: cl, keys: map[string]bool{}}
		for j := 0; j < 300+3*sh/2; j++ {
			k := fmt.Sprintf("k%d", j)
			w.keys[k] = true
			_ = cl.Net.In.ForwardSet(bg, "n1", dcl.Item(k, "v", 0), false)
		}
		w.look()
		tr := cl.HTTPTransport(dcl.Conf{HTTP: true}, cl.Nodes[0])
		for _, pat := range []string{"", "k1", "k?0", "none", name(g, true)} {
			got, err := tr.ListKeys(bg, "n1", pat)
			r.Case(fmt.Sprintf("shards/%d/%s", sh, pat), true)
			if err != nil {
				r.Violate("shards:error", "listing a peer with %d shards: %v", sh, err)
				break
			}
			sort.Strings(got)
			want := w.union(pat, []string{"n0"})
			r.Add("keys over the wire", int64(len(got)))
			r.Max("shards", int64(sh))
			if !slices.Equal(got, want) {
				r.Violate("shards:keys", "listing %q of a peer with %d shards has %d keys, it holds %d: %s", pat, sh, len(got), len(want), diff(got, want))
				break
			}
		}
		cl.Stop()
	}
}

// hostile peers: whatever a peer answers, the listing ends, and what is not the peer's whole answer is reported.
func hostile(r *kit.Run) {
	if !r.Phase("hostile") {
		return
	}
	answers := map[string]func(w http.ResponseWriter, q *http.Request, n int){
		"same cursor": func(w http.ResponseWriter, q *http.Request, n int) { fmt.Fprint(w, `{"keys":["a"],"next_cursor":"0"}`) },
		"stuck cursor": func(w http.ResponseWriter, q *http.Request, n int) {
			fmt.Fprint(w, `{"keys":["a"],"next_cursor":"7"}`)
		},
		"cycle": func(w http.ResponseWriter, q *http.Request, n int) {
			fmt.Fprintf(w, `{"keys":["a%d"],"next_cursor":"%d"}`, n, 1+n%3)
		},
		"not a number": func(w http.ResponseWriter, q *http.Request, n int) {
			fmt.Fprintf(w, `{"keys":["a"],"next_cursor":"%s"}`, []string{"x", "y"}[n%2])
		},
		"late error": func(w http.ResponseWriter, q *http.Request, n int) {
			if n > 2 {
				w.WriteHeader(500)
				return
			}
			fmt.Fprintf(w, `{"keys":["a%d"],"next_cursor":"%d"}`, n, n+1)
		},
		"late garbage": func(w http.ResponseWriter, q *http.Request, n int) {
			if n > 2 {
				fmt.Fprint(w, `{"keys":["a`)
				return
			}
			fmt.Fprintf(w, `{"keys":["a%d"],"next_cursor":"%d"}`, n, n+1)
		},
		"wrong type": func(w http.ResponseWriter, q *http.Request, n int) {
			fmt.Fprint(w, `{"keys":{"a":1},"next_cursor":""}`)
		},
		"refused": func(w http.ResponseWriter, q *http.Request, n int) { w.WriteHeader(401) },
		"hang": func(w http.ResponseWriter, q *http.Request, n int) {
			select {
			case <-q.Context().Done():
			case <-time.After(30 * time.Second):
			}
		},
	}
	var names []string
	for k := range answers {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, what := range names {
		var hits atomic.Int64
		h := answers[what]
		ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			if !strings.HasPrefix(q.URL.Path, "/internal/keys") {
				fmt.Fprint(w, `{}`)
				return
			}
			h(w, q, int(hits.Add(1))-1)
		}))
		m := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(1)))
		m.Upsert(cluster.NewNode("n1", ts.Listener.Addr().String()))
		tr := backend.NewDistHTTPTransport(2*time.Second, func(string) (string, bool) { return ts.URL, true })
		b, err := backend.NewDistMemory(bg, backend.WithDistMembership(m, cluster.NewNode("n0", "127.0.0.1:1")), backend.WithDistReplication(1), backend.WithDistTransport(tr))
		if err != nil {
			panic(err)
		}
		dm := b.(*backend.DistMemory)
		in := backend.NewInProcessTransport()
		in.Register(dm)
		_ = in.ForwardSet(bg, "n0", dcl.Item("mine", "v", 0), false)
		done := make(chan backend.ListKeysResult, 1)
		go func() {
			res, _ := dm.ListKeys(bg, "", 0)
			done <- res
		}()
		r.Case("hostile/"+what, true)
		select {
		case res := <-done:
			r.Seen("hostile", fmt.Sprintf("%s: partial=%v keys=%d", what, res.PartialNodes, len(res.Keys)))
			r.Add("pages asked of hostile peers", hits.Load())
			if !slices.Equal(res.PartialNodes, []string{"n1"}) {
				r.Violate("hostile:silent:"+what, "a peer that answers with %s is not reported: partial %v, keys %d after %d pages", what, res.PartialNodes, len(res.Keys), hits.Load())
			}
			if !dcl.Has(res.Keys, "mine") {
				r.Violate("hostile:own", "the node's own key is missing next to a peer that answers with %s: %v", what, res.Keys)
			}
			if hits.Load() > 100 {
				r.Violate("hostile:pages", "%d pages asked of a peer that answers with %s", hits.Load(), what)
			}
		case <-time.After(60 * time.Second):
			r.Violate("hostile:endless", "listing does not end with a peer that answers with %s (%d pages so far)", what, hits.Load())
		}
		ts.CloseClientConnections()
		ts.Close()
		_ = dm.Stop(bg)
	}
}
