// C34: hinted writes are bounded, exactly accounted and delivered on recovery.
//
// Oracle: a reference queue per unreachable node (oldest first, the configured caps applied as documented) runs beside
// the real node; after every operation the reported counts and bytes have to be the reference's, and when the node is
// back exactly the hints the reference still holds have to arrive, each once and in order. Under concurrency the books
// have to balance and the byte gauge must stay within its limit at every instant.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

func main() {
	kit.Main("C34", "a write that had to be queued (or was found not to be), with the books compared afterwards", func(r *kit.Run) {
		books(r)
		expire(r)
		storm(r)
		off(r)
	})
}

type hint struct {
	key, val string
	size     int64
}

func size(key string, v any) int64 {
	switch x := v.(type) {
	case string:
		return int64(len(key) + len(x))
	case []byte:
		return int64(len(key) + len(x))
	}
	b, _ := json.Marshal(v)
	return int64(len(key) + len(b))
}

func text(v any) string {
	switch x := dcl.Plain(v).(type) {
	case []byte:
		return string(x)
	case string:
		return x
	default:
		b, _ := json.Marshal(x)
		return string(b)
	}
}

// inOrder: a pass that was under way when the node came back may have delivered the younger part of the queue first.
func inOrder(got, q []hint) bool {
	if len(got) != len(q) {
		return false
	}
	for from := range q {
		same := true
		for x := range q {
			h := q[(from+x)%len(q)]
			same = same && got[x].key == h.key && got[x].val == h.val
		}
		if same {
			return true
		}
	}
	return len(q) == 0
}

type key struct {
	node, key, val string
}

// books: one client; the reference queues say what is queued, dropped, refused and delivered.
func books(r *kit.Run) {
	if !r.Phase("books") {
		return
	}
	for i := 0; i < r.N(140, 4000); i++ {
		g := r.Rand("books", i)
		n := 2 + g.Intn(4)
		rf := 2 + g.Intn(n-1)
		perNode, total := 0, 0
		var limit int64
		if g.Intn(2) == 0 {
			perNode = 1 + g.Intn(6)
		}
		if g.Intn(2) == 0 {
			total = 1 + g.Intn(12)
		}
		if g.Intn(2) == 0 {
			limit = int64(10 + g.Intn(200))
		}
		http := i%14 == 5
		label := fmt.Sprintf("%d nodes, replication %d, caps: per node %d, total %d, bytes %d, HTTP %v", n, rf, perNode, total, limit, http)
		cl := dcl.New(dcl.Conf{N: n, RF: rf, HTTP: http, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{
				backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Millisecond),
				backend.WithDistHintMaxPerNode(perNode), backend.WithDistHintMaxTotal(total), backend.WithDistHintMaxBytes(limit),
				backend.WithDistWriteConsistency(backend.ConsistencyOne),
			}
		}})
		cl.Net.Generic.Store(g.Intn(2) == 0)
		var mu sync.Mutex
		arrived := map[key]int{}
		order := map[string][]hint{}
		cl.Net.Watch(func(c dcl.Call) {
			if c.Op == "set" && c.Reached {
				mu.Lock()
				h := hint{key: c.Key, val: text(c.Item.Value)}
				arrived[key{c.To, c.Key, h.val}]++
				order[c.From+c.To] = append(order[c.From+c.To], h)
				mu.Unlock()
			}
		})
		queues := map[string]map[string][]hint{} // at a node, for a node
		type tally struct{ queued, dropped, refused, delivered, bytes, count int64 }
		books := map[string]*tally{}
		for _, nd := range cl.Nodes {
			queues[nd.ID] = map[string][]hint{}
			books[nd.ID] = &tally{}
		}
		var log []string
		say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		compare := func(what string) bool {
			for _, nd := range cl.Nodes {
				m, b := nd.DM.Metrics(), books[nd.ID]
				r.Case(fmt.Sprint(i, len(log), nd.ID), b.queued > 0)
				if m.HintedQueued != b.queued || m.HintedDropped != b.dropped || m.HintedGlobalDropped != b.refused || m.HintedReplayed != b.delivered || m.HintedExpired != 0 || m.HintedBytes != b.bytes {
					r.ViolateWith("books", log, "%s: after %s node %s reports queued %d, dropped %d, refused %d, delivered %d, expired %d, bytes %d; it should be queued %d, dropped %d, refused %d, delivered %d, expired 0, bytes %d", label, what, nd.ID, m.HintedQueued, m.HintedDropped, m.HintedGlobalDropped, m.HintedReplayed, m.HintedExpired, m.HintedBytes, b.queued, b.dropped, b.refused, b.delivered, b.bytes)
					return false
				}
			}
			return true
		}
		good := true
		var reuse cache.Item
		seq := 0
		for round := 0; good && round < 4; round++ {
			// Nobody is behind now; some go away.
			down := map[string]bool{}
			for _, p := range g.Perm(n)[:1+g.Intn(n-1)] {
				down[dcl.ID(p)] = true
				cl.Net.Down(dcl.ID(p), true)
			}
			say("down: %v", down)
			for s := 0; good && s < 6+g.Intn(12); s++ {
				k := fmt.Sprintf("%0*d", 1+g.Intn(6), g.Intn(6))
				owners := cl.Owners(k)
				if down[owners[0]] { // the primary takes its own writes here
					continue
				}
				at := owners[0]
				seq++
				var v any = fmt.Sprintf("%0*d", 1+g.Intn(20), seq)
				switch g.Intn(5) {
				case 0:
					if !http {
						v = []byte(v.(string))
					}
				case 1:
					v = map[string]any{"n": float64(seq)}
				}
				reuse = *dcl.Item(k, v, time.Hour)
				if err := cl.Node(at).DM.Set(ctx, &reuse); err != nil {
					r.ViolateWith("set", log, "%s: Set at level ONE through the primary = %v", label, err)
				}
				say("set %s=%s via %s, owners %v", k, text(v), at, owners)
				for _, o := range owners[1:] {
					if !down[o] {
						continue
					}
					h := hint{k, text(v), size(k, v)}
					q := queues[at][o]
					b := books[at]
					cnt, bytes := b.count, b.bytes
					evict := perNode > 0 && len(q) >= perNode
					if evict {
						cnt--
						bytes -= q[0].size
					}
					if total > 0 && cnt >= int64(total) || limit > 0 && bytes+h.size > limit {
						b.refused++
						continue
					}
					if evict {
						q = q[1:]
						b.dropped++
					}
					b.queued++
					b.count, b.bytes = cnt+1, bytes+h.size
					queues[at][o] = append(q, h)
				}
				good = compare("a write")
				r.Add("writes", 1)
			}
			if !good {
				break
			}
			// The queues stay while their nodes are away.
			time.Sleep(2 * time.Millisecond)
			good = compare("failed attempts to deliver")
			if !good {
				break
			}
			mu.Lock()
			arrived, order = map[key]int{}, map[string][]hint{}
			mu.Unlock()
			cl.Net.Heal()
			say("up")
			for _, nd := range cl.Nodes {
				b := books[nd.ID]
				b.delivered += b.count
				b.count, b.bytes = 0, 0
			}
			if !dcl.Eventually(20*time.Second, func() bool {
				for _, nd := range cl.Nodes {
					if m := nd.DM.Metrics(); m.HintedBytes != 0 || m.HintedReplayed != books[nd.ID].delivered {
						return false
					}
				}
				return true
			}) {
				compare("everybody was back for 20 s")
				good = false
				break
			}
			time.Sleep(3 * time.Millisecond) // anything sent twice would be now
			good = compare("delivery")
			mu.Lock()
			want := map[key]int{}
			for at, qs := range queues {
				for to, q := range qs {
					for _, h := range q {
						want[key{to, h.key, h.val}]++
					}
					got := order[at+to]
					if !inOrder(got, q) {
						r.ViolateWith("order", log, "%s: hints of %s for %s arrived as %v, they were queued as %v", label, at, to, got, q)
					}
					r.Add("delivered", int64(len(q)))
				}
			}
			for k, c := range want {
				if arrived[k] != c {
					r.ViolateWith("delivery", log, "%s: hint %s=%s for %s was delivered %d times", label, k.key, k.val, k.node, arrived[k])
				}
			}
			for k, c := range arrived {
				if want[k] != c {
					r.ViolateWith("delivery", log, "%s: %s=%s was delivered to %s %d times, but %d hints were queued for it", label, k.key, k.val, k.node, c, want[k])
				}
			}
			mu.Unlock()
			for at := range queues {
				// The newest of what arrived is what the node holds.
				for to, q := range queues[at] {
					last := map[string]string{}
					for _, h := range q {
						last[h.key] = h.val
					}
					for k, v := range last {
						it, ok := cl.Local(to, k)
						if !ok {
							r.ViolateWith("not-there", log, "%s: hint %s=%s was delivered to %s, which has no such key", label, k, v, to)
							continue
						}
						if src, ok := cl.Local(at, k); ok && it.Version > src.Version || it.Version == 0 {
							r.ViolateWith("version", log, "%s: %s holds %s at version %d, its primary at %d", label, to, k, it.Version, src.Version)
						}
					}
				}
				queues[at] = map[string][]hint{}
			}
		}
		r.Seen("setups", fmt.Sprint(rf, perNode > 0, total > 0, limit > 0, http))
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// expire: hints outlive their TTL by no more than a replay tick, and none is delivered after it was counted as expired.
func expire(r *kit.Run) {
	if !r.Phase("expire") {
		return
	}
	for i := 0; i < r.N(24, 300); i++ {
		g := r.Rand("expire", i)
		ttl := time.Duration(30+g.Intn(60)) * time.Millisecond
		cl := dcl.New(dcl.Conf{N: 2, RF: 2, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistHintTTL(ttl), backend.WithDistHintReplayInterval(time.Millisecond), backend.WithDistWriteConsistency(backend.ConsistencyOne)}
		}})
		var at, to *dcl.Node
		keys := map[string]bool{}
		for x := 0; len(keys) < 5+g.Intn(5); x++ {
			k := fmt.Sprint("k", x)
			o := cl.Owners(k)
			if at == nil {
				at, to = cl.Node(o[0]), cl.Node(o[1])
			}
			if o[0] == at.ID {
				keys[k] = true
			}
		}
		cl.Net.Down(to.ID, true)
		began := time.Now()
		for k := range keys {
			_ = at.DM.Set(ctx, dcl.Item(k, "v", time.Hour))
		}
		if m := at.DM.Metrics(); m.HintedExpired > 0 && time.Since(began) < ttl {
			r.Violate("expired-early", "hints kept for %v are counted as expired after %v", ttl, time.Since(began))
		}
		if !dcl.Eventually(20*time.Second, func() bool { return at.DM.Metrics().HintedExpired == int64(len(keys)) }) {
			m := at.DM.Metrics()
			r.Violate("never-expired", "%d hints kept for %v: %d expired after 20 s, %d bytes queued", len(keys), ttl, m.HintedExpired, m.HintedBytes)
		}
		var late atomic.Int64
		cl.Net.Watch(func(c dcl.Call) {
			if c.Op == "set" && c.Reached {
				late.Add(1)
			}
		})
		cl.Net.Heal()
		time.Sleep(4 * time.Millisecond)
		m := at.DM.Metrics()
		if m.HintedQueued != int64(len(keys)) || m.HintedReplayed != 0 || m.HintedExpired != int64(len(keys)) || m.HintedBytes != 0 || late.Load() != 0 {
			r.Violate("expired-books", "%d hints expired; reported: queued %d, delivered %d, expired %d, bytes %d; %d arrived", len(keys), m.HintedQueued, m.HintedReplayed, m.HintedExpired, m.HintedBytes, late.Load())
		}
		// The queue works on: a new outage, recovered from in time, or a mixture of old and new hints.
		long := cl.Net
		long.Down(to.ID, true)
		for k := range keys {
			_ = at.DM.Set(ctx, dcl.Item(k, "w", time.Hour))
		}
		long.Heal()
		if !dcl.Eventually(20*time.Second, func() bool {
			m := at.DM.Metrics()
			return m.HintedBytes == 0 && m.HintedReplayed+m.HintedExpired == m.HintedQueued
		}) {
			m := at.DM.Metrics()
			r.Violate("books", "after an outage and recovery: queued %d, delivered %d, expired %d, dropped %d, bytes %d", m.HintedQueued, m.HintedReplayed, m.HintedExpired, m.HintedDropped, m.HintedBytes)
		}
		m = at.DM.Metrics()
		time.Sleep(time.Millisecond)
		if got := late.Load(); got != m.HintedReplayed {
			r.Violate("replayed-count", "%d hints arrived, %d are counted as delivered", got, m.HintedReplayed)
		}
		r.Case(fmt.Sprint("expire", i), true)
		r.Add("expired", m.HintedExpired)
		cl.Stop()
	}
}

// storm: many clients, nodes going up and down; in the end the books balance and nothing owed is missing.
func storm(r *kit.Run) {
	if !r.Phase("storm") {
		return
	}
	for i := 0; i < r.N(70, 1800); i++ {
		g := r.Rand("storm", i)
		n := 2 + g.Intn(4)
		rf := 2 + g.Intn(n-1)
		var perNode, total int
		var limit int64
		if g.Intn(2) == 0 {
			perNode, total, limit = g.Intn(5), g.Intn(12), int64(g.Intn(150))
		}
		migrate := g.Intn(4) == 0
		label := fmt.Sprintf("%d nodes, replication %d, caps: per node %d, total %d, bytes %d, rebalancing %v", n, rf, perNode, total, limit, migrate)
		cl := dcl.New(dcl.Conf{N: n, RF: rf, HTTP: i%18 == 7, Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{
				backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Millisecond),
				backend.WithDistHintMaxPerNode(perNode), backend.WithDistHintMaxTotal(total), backend.WithDistHintMaxBytes(limit),
				backend.WithDistWriteConsistency(backend.ConsistencyOne),
			}
			if migrate {
				o = append(o, backend.WithDistRebalanceInterval(2*time.Millisecond))
			}
			return o
		}})
		cl.Net.Generic.Store(g.Intn(2) == 0)
		dg := rand.New(rand.NewSource(g.Int63()))
		var dmu sync.Mutex
		cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) {
			dmu.Lock()
			defer dmu.Unlock()
			switch {
			case c.Op != "set":
				return false, false, 0
			case dg.Intn(8) == 0:
				return true, false, 0
			case dg.Intn(10) == 0:
				return false, true, 0
			case dg.Intn(10) == 0:
				return false, false, time.Duration(dg.Intn(400)) * time.Microsecond
			}
			return false, false, 0
		})
		stop := make(chan struct{})
		var aux sync.WaitGroup
		aux.Add(2)
		go func() { // the gauge
			defer aux.Done()
			for {
				for _, nd := range cl.Nodes {
					m := nd.DM.Metrics()
					if limit > 0 && m.HintedBytes > limit {
						r.Violate("over-bytes", "%s: %s reports %d bytes of hints", label, nd.ID, m.HintedBytes)
					}
					if m.HintedBytes < 0 {
						r.Violate("negative", "%s: %s reports %d bytes of hints", label, nd.ID, m.HintedBytes)
					}
					r.Add("gauge-looks", 1)
				}
				select {
				case <-stop:
					return
				case <-time.After(50 * time.Microsecond):
				}
			}
		}()
		lg := rand.New(rand.NewSource(g.Int63()))
		go func() {
			defer aux.Done()
			for {
				cl.Faults(lg, lg.Intn(2), lg.Intn(2))
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(100+lg.Intn(900)) * time.Microsecond):
				}
			}
		}()
		var seq atomic.Int64
		var acked atomic.Int64
		var wg sync.WaitGroup
		for c := 0; c < 4; c++ {
			wg.Add(1)
			lg := rand.New(rand.NewSource(g.Int63()))
			go func() {
				defer wg.Done()
				for s := 0; s < 20; s++ {
					if cl.Any(lg).DM.Set(ctx, dcl.Item(fmt.Sprint("k", lg.Intn(8)), fmt.Sprint("v", seq.Add(1)), time.Hour)) == nil {
						acked.Add(1)
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		aux.Wait()
		cl.Net.Calm()
		cl.Net.Heal()
		if !dcl.Eventually(20*time.Second, func() bool {
			for _, nd := range cl.Nodes {
				if nd.DM.Metrics().HintedBytes != 0 {
					return false
				}
			}
			return true
		}) {
			r.Violate("stuck", "%s: hints still queued 20 s after everybody is back", label)
		}
		time.Sleep(3 * time.Millisecond)
		gone := int64(0)
		for _, nd := range cl.Nodes {
			m := nd.DM.Metrics()
			if m.HintedQueued != m.HintedReplayed+m.HintedExpired+m.HintedDropped || m.HintedExpired != 0 || m.HintedBytes != 0 {
				r.Violate("balance", "%s: with nothing queued any more %s reports queued %d, delivered %d, expired %d, dropped %d, bytes %d", label, nd.ID, m.HintedQueued, m.HintedReplayed, m.HintedExpired, m.HintedDropped, m.HintedBytes)
			}
			if perNode == 0 && m.HintedDropped != 0 || total == 0 && limit == 0 && m.HintedGlobalDropped != 0 {
				r.Violate("dropped", "%s: %s dropped %d and refused %d hints without such a cap", label, nd.ID, m.HintedDropped, m.HintedGlobalDropped)
			}
			gone += m.HintedDropped + m.HintedGlobalDropped
			r.Add("storm-hints", m.HintedQueued)
		}
		if gone == 0 { // nothing was lost, so every owner has what any owner has
			for k := 0; k < 8; k++ {
				key := fmt.Sprint("k", k)
				top := uint64(0)
				hs := cl.Holders(key)
				owners := cl.Owners(key)
				for _, o := range owners {
					if h := hs[o]; h != nil && h.Version > top {
						top = h.Version
					}
				}
				for _, o := range owners {
					if top > 0 && (hs[o] == nil || hs[o].Version != top) {
						r.Violate("owed", "%s: all hints were delivered and none dropped, but owner %s of %s holds %v while another has version %d", label, o, key, hs[o], top)
					}
				}
			}
		}
		r.Case(fmt.Sprint("storm", i), acked.Load() > 0)
		r.Seen("storms", fmt.Sprint(rf, perNode > 0, total > 0, limit > 0, gone > 0))
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// off: without a hint lifetime nothing is queued.
func off(r *kit.Run) {
	if !r.Phase("off") {
		return
	}
	for i := 0; i < r.N(6, 40); i++ {
		g := r.Rand("off", i)
		cl := dcl.New(dcl.Conf{N: 3, RF: 3, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistHintTTL(0), backend.WithDistHintReplayInterval(time.Millisecond), backend.WithDistWriteConsistency(backend.ConsistencyOne)}
		}})
		cl.Faults(g, 1, 1)
		for s := 0; s < 20; s++ {
			_ = cl.Any(g).DM.Set(ctx, dcl.Item(fmt.Sprint("k", s), "v", 0))
		}
		for _, nd := range cl.Nodes {
			if m := nd.DM.Metrics(); m.HintedQueued != 0 || m.HintedBytes != 0 {
				r.Violate("off", "hints are off; %s reports %d queued, %d bytes", nd.ID, m.HintedQueued, m.HintedBytes)
			}
		}
		r.Case(fmt.Sprint("off", i), true)
		cl.Stop()
	}
}
