// C16: the Redis backends store, expire, list and remove exactly the cache's items.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	goredis "github.com/redis/go-redis/v9"

	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/resp"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type quiet struct{}

func (quiet) Printf(context.Context, string, ...any) {}

func main() {
	goredis.SetLogger(quiet{})
	kit.Main("C16", "random histories of Set/Get/Remove/Clear/List/Count on the Redis backend and the Redis-cluster backend over an in-process Redis (real hash-TTL, transaction, slot and database semantics), with foreign keys, injected command errors, corrupted entries and dropped connections, compared step by step with a model of live items; "+
		"TTLs read from the server; concurrent histories checked for linearizability with porcupine; non-trivial = the step observed or changed a stored item", run)
}

type be interface {
	Get(ctx context.Context, key string) (*cache.Item, bool)
	Set(ctx context.Context, item *cache.Item) error
	Capacity() int
	SetCapacity(int)
	Count(ctx context.Context) int
	Remove(ctx context.Context, keys ...string) error
	List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error)
	Clear(ctx context.Context) error
}

type rig struct {
	kind  string
	b     be
	nodes []*resp.Server
	db    int
	set   string
	close func()
}

func (g *rig) ttl(k string) time.Duration {
	for _, n := range g.nodes {
		if d := n.TTL(g.db, k); d != -2 {
			return d
		}
	}
	return -2
}

func (g *rig) reset() {
	for _, n := range g.nodes {
		n.FailWith(nil)
		n.Reset()
	}
}

func (g *rig) node(k string) *resp.Server {
	if len(g.nodes) == 1 {
		return g.nodes[0]
	}
	return g.nodes[resp.Slot(k)/((16384+len(g.nodes)-1)/len(g.nodes))]
}

func newRig(cluster bool, set string, db int) *rig {
	if cluster {
		cl, err := resp.StartCluster(3)
		if err != nil {
			panic(err)
		}
		var addrs []string
		for _, n := range cl.Nodes {
			addrs = append(addrs, n.Addr)
		}
		c := goredis.NewClusterClient(&goredis.ClusterOptions{Addrs: addrs, MaxRetries: 3})
		os := []backend.Option[backend.RedisCluster]{backend.WithRedisClusterClient(c)}
		if set != "" {
			os = append(os, backend.WithClusterKeysSetName(set))
		} else {
			set = "redis"
		}
		b, err := backend.NewRedisCluster(os...)
		if err != nil {
			panic(err)
		}
		return &rig{kind: "cluster", b: b, nodes: cl.Nodes, set: set, close: func() { c.Close(); cl.Close() }}
	}
	s, err := resp.Start(nil)
	if err != nil {
		panic(err)
	}
	c := goredis.NewClient(&goredis.Options{Addr: s.Addr, DB: db, MaxRetries: 3})
	os := []backend.Option[backend.Redis]{backend.WithRedisClient(c)}
	if set != "" {
		os = append(os, backend.WithKeysSetName(set))
	} else {
		set = "redis"
	}
	b, err := backend.NewRedis(os...)
	if err != nil {
		panic(err)
	}
	return &rig{kind: "redis", b: b, nodes: []*resp.Server{s}, db: db, set: set, close: func() { c.Close(); s.Close() }}
}

type mitem struct {
	it cache.Item
	at time.Time // instant just after the acknowledged Set
}

func value(rng *rand.Rand) any {
	switch rng.Intn(9) {
	case 0:
		return fmt.Sprintf("v%d", rng.Intn(1000))
	case 1:
		return ""
	case 2:
		return float64(rng.Intn(1000)) / 8
	case 3:
		return rng.Intn(2) == 0
	case 4:
		return []any{"a", 1.5, nil, map[string]any{"x": true}}
	case 5:
		return map[string]any{"k": "v", "n": 2.0, "l": []any{}}
	case 6:
		return "quote\" \\ \r\n\x00 <&> \u2028 é 世界"
	case 7:
		return strings.Repeat("L", 3000+rng.Intn(3000))
	}
	return []any{}
}

var keyPool = []string{"a", "b", "key:1", "key:2", "k with space", "ключ", "a\r\nSET x y\r\n", "{tag}1", "{tag}2", "*", "data", "expiration", strings.Repeat("k", 400), "-1", "0"}

func eqItem(got, want *cache.Item) string {
	switch {
	case got.Key != want.Key:
		return fmt.Sprintf("key %q want %q", got.Key, want.Key)
	case !reflect.DeepEqual(got.Value, want.Value):
		return fmt.Sprintf("value %#v want %#v", got.Value, want.Value)
	case got.Expiration != want.Expiration:
		return fmt.Sprintf("expiration %v want %v", got.Expiration, want.Expiration)
	case got.Size != want.Size:
		return fmt.Sprintf("size %d want %d", got.Size, want.Size)
	case got.AccessCount != want.AccessCount:
		return fmt.Sprintf("access count %d want %d", got.AccessCount, want.AccessCount)
	case !got.LastAccess.Equal(want.LastAccess):
		return fmt.Sprintf("last access %v want %v", got.LastAccess, want.LastAccess)
	case got.Version != want.Version || got.Origin != want.Origin || !got.LastUpdated.Equal(want.LastUpdated):
		return "version/origin/last-updated changed"
	}
	return ""
}

func run(r *kit.Run) {
	if r.Phase("construct") {
		if _, err := backend.NewRedis(); err == nil {
			r.Violate("nil-client", "NewRedis without a client was accepted")
		}
		if _, err := backend.NewRedisCluster(); err == nil {
			r.Violate("nil-client", "NewRedisCluster without a client was accepted")
		}
		for _, cl := range []bool{false, true} {
			g := newRig(cl, "", 0)
			g.b.SetCapacity(7)
			g.b.SetCapacity(-3)
			if g.b.Capacity() != 7 {
				r.Violate("capacity:"+g.kind, "SetCapacity(7), SetCapacity(-3): capacity %d", g.b.Capacity())
			}
			r.Case("construct:"+g.kind, true)
			g.close()
		}
	}
	for _, cl := range []bool{false, true} {
		kind := map[bool]string{false: "redis", true: "cluster"}[cl]
		if r.Phase("sequential-" + kind) {
			g := newRig(cl, "", 0)
			n := r.N(60, 1500)
			for i := 0; i < n; i++ {
				if i == n/2 { // second half: other set name and, standalone, another database
					g.close()
					db := 0
					if !cl {
						db = 5
					}
					g = newRig(cl, "hypercache:keys", db)
				}
				sequential(r, g, i)
			}
			g.close()
		}
		if r.Phase("faults-" + kind) {
			g := newRig(cl, "", 0)
			faults(r, g)
			g.close()
		}
		if r.Phase("concurrent-" + kind) {
			g := newRig(cl, "ks", 0)
			concurrent(r, g, cl)
			g.close()
		}
		if r.Phase("collision-" + kind) {
			g := newRig(cl, "", 0)
			ctx := context.Background()
			err := g.b.Set(ctx, &cache.Item{Key: g.set, Value: "v"})
			_, ok := g.b.Get(ctx, g.set)
			err2 := g.b.Set(ctx, &cache.Item{Key: "other", Value: "v"})
			r.Case("collision:"+kind, true)
			if err != nil || !ok || err2 != nil {
				r.Violate("key-equals-keyset-name", "%s: storing an item under the name of the backend's own key set %q: Set=%v found=%v, another key's Set=%v", kind, g.set, err, ok, err2)
			}
			g.close()
		}
	}
}

// near is the window around a deadline in which the outcome is not asserted.
const near = 25 * time.Millisecond

func sequential(r *kit.Run, g *rig, i int) {
	g.reset()
	rng := r.Rand("seq-"+g.kind, i)
	ctx := context.Background()
	model := map[string]*mitem{}
	foreign := 0
	for f := 0; f < rng.Intn(3); f++ {
		k := fmt.Sprintf("foreign-%d", f)
		g.node(k).PutString(g.db, k, "not ours")
		foreign++
	}
	var hist []string
	// state: 1 live, 0 gone, -1 undecided
	state := func(k string) int {
		m := model[k]
		if m == nil {
			return 0
		}
		if m.it.Expiration == 0 {
			return 1
		}
		age := time.Since(m.at)
		switch {
		case age > m.it.Expiration+near:
			return 0
		case age < m.it.Expiration-near:
			return 1
		}
		return -1
	}
	bad := func(sig, format string, a ...any) {
		r.ViolateWith(sig+":"+g.kind, hist, "%s after %v", fmt.Sprintf(format, a...), tail(hist, 8))
	}
	for step := 0; step < 25; step++ {
		k := keyPool[rng.Intn(len(keyPool))]
		op := rng.Intn(100)
		switch {
		case op < 40: // Set
			exp := []time.Duration{0, 0, time.Hour, 2500 * time.Millisecond, 90 * time.Millisecond, 150 * time.Millisecond, -time.Second}[rng.Intn(7)]
			it := &cache.Item{Key: k, Value: value(rng), Expiration: exp, Size: int64(rng.Intn(1000)), AccessCount: uint32(rng.Intn(9)), LastAccess: time.Now(), LastUpdated: time.Unix(int64(rng.Intn(1e9)), 5).UTC(), Version: uint64(rng.Int63()), Origin: "n1"}
			invalid := exp < 0
			switch rng.Intn(25) {
			case 0:
				it.Key, invalid = " \t", true
			case 1:
				it.Value, invalid = nil, true
			}
			saved := *it
			err := g.b.Set(ctx, it)
			hist = append(hist, fmt.Sprintf("Set(%.30q,%v,ttl=%v)=%v", it.Key, clip(it.Value), exp, err))
			r.Case(fmt.Sprintf("%s:set:%d:%d", g.kind, i, step), true)
			if invalid {
				if err == nil {
					bad("invalid-accepted", "an invalid item was accepted")
					return
				}
				continue
			}
			if err != nil {
				bad("set-error", "Set of a valid item failed: %v", err)
				return
			}
			model[k] = &mitem{it: saved, at: time.Now()}
			// lifetime as seen by the server
			d := g.ttl(k)
			age := time.Since(model[k].at)
			switch {
			case exp == 0 && d != -1:
				bad("ttl-never", "item %q stored without expiration has TTL %v on the server", k, d)
				return
			case exp > 0 && (d == -1 || d > exp || (d >= 0 && d < exp-age-3*near) || (d == -2 && exp > 4*near)):
				bad("ttl", "item %q stored for %v has TTL %v on the server", k, exp, d)
				return
			}
			r.Seen("ttl-class", fmt.Sprint(exp))
		case op < 65: // Get
			before := state(k)
			it, ok := g.b.Get(ctx, k)
			after := state(k)
			hist = append(hist, fmt.Sprintf("Get(%.30q)=%v", k, ok))
			r.Case(fmt.Sprintf("%s:get:%d:%d", g.kind, i, step), model[k] != nil)
			switch {
			case before == 1 && after == 1 && !ok:
				bad("lost", "live item %.40q not found (ttl on server %v)", k, g.ttl(k))
				return
			case before == 0 && ok:
				bad("ghost", "item %.40q found although absent, removed or expired", k)
				return
			}
			if ok {
				if it == nil {
					bad("nil-item", "Get reported %.40q found with a nil item", k)
					return
				}
				if d := eqItem(it, &model[k].it); d != "" {
					bad("altered", "Get(%.40q): %s", k, d)
					return
				}
				r.Add("items_compared", 1)
				it.Value = "caller changes its copy"
			}
		case op < 77: // Remove
			ks := []string{k}
			for rng.Intn(3) == 0 {
				ks = append(ks, keyPool[rng.Intn(len(keyPool))])
			}
			err := g.b.Remove(ctx, ks...)
			hist = append(hist, fmt.Sprintf("Remove(%.60q)=%v", ks, err))
			r.Case(fmt.Sprintf("%s:rm:%d:%d", g.kind, i, step), true)
			if err != nil {
				bad("remove-error", "Remove(%.60q) reported an error: %v", ks, err)
				return
			}
			for _, x := range ks {
				delete(model, x)
				if d := g.ttl(x); d != -2 {
					bad("remove-left", "Remove(%.40q) left the entry on the server", x)
					return
				}
			}
		case op < 80: // Clear
			err := g.b.Clear(ctx)
			hist = append(hist, fmt.Sprintf("Clear=%v", err))
			r.Case(fmt.Sprintf("%s:clear:%d:%d", g.kind, i, step), len(model) > 0)
			if err != nil {
				bad("clear-error", "Clear reported an error: %v", err)
				return
			}
			for _, n := range g.nodes {
				for _, x := range n.Keys(g.db) {
					if _, ours := model[x]; ours || x == g.set {
						bad("clear-left", "Clear left %.40q on the server", x)
						return
					}
				}
			}
			model = map[string]*mitem{}
			foreign = 0
			for _, n := range g.nodes {
				for _, x := range n.Keys(g.db) {
					if strings.HasPrefix(x, "foreign-") {
						foreign++
					}
				}
			}
		case op < 90: // List
			want, maybe := map[string]bool{}, map[string]bool{}
			for x := range model {
				switch state(x) {
				case 1:
					want[x] = true
				case -1:
					maybe[x] = true
				}
			}
			var fs []backend.IFilter
			desc := ""
			if rng.Intn(2) == 0 {
				fs = append(fs, backend.WithSortBy("Key"))
				desc = "sorted"
			}
			filtered := rng.Intn(3) == 0
			if filtered {
				fs = append(fs, backend.WithFilterFunc(func(it *cache.Item) bool { return it.Size%2 == 0 }))
				desc += "+even"
			}
			items, err := g.b.List(ctx, fs...)
			hist = append(hist, fmt.Sprintf("List(%s)=%d,%v", desc, len(items), err))
			r.Case(fmt.Sprintf("%s:list:%d:%d", g.kind, i, step), len(model) > 0)
			if err != nil {
				bad("list-error", "List failed: %v", err)
				return
			}
			seen := map[string]bool{}
			var order []string
			for _, it := range items {
				if it == nil || model[it.Key] == nil || seen[it.Key] {
					bad("list-extra", "List returned %v: unknown, removed or twice", it)
					return
				}
				seen[it.Key] = true
				order = append(order, it.Key)
				if filtered && it.Size%2 != 0 {
					bad("list-filter", "List kept %.40q which the filter excludes", it.Key)
					return
				}
				if state(it.Key) == 0 && !want[it.Key] && !maybe[it.Key] {
					bad("list-expired", "List returned the expired item %.40q", it.Key)
					return
				}
				if d := eqItem(it, &model[it.Key].it); d != "" {
					bad("list-altered", "List: %.40q: %s", it.Key, d)
					return
				}
			}
			for x := range want {
				if !seen[x] && state(x) == 1 && (!filtered || model[x].it.Size%2 == 0) {
					bad("list-missing", "List omitted the live item %.40q", x)
					return
				}
			}
			if strings.HasPrefix(desc, "sorted") && !sort.StringsAreSorted(order) {
				bad("list-order", "List sorted by key returned %.80q", order)
				return
			}
		case op < 95: // Count
			live, unsure := 0, 0
			for x := range model {
				switch state(x) {
				case 1:
					live++
				case -1:
					unsure++
				}
			}
			n := g.b.Count(ctx)
			hist = append(hist, fmt.Sprintf("Count=%d", n))
			r.Case(fmt.Sprintf("%s:count:%d:%d", g.kind, i, step), live > 0)
			if unsure > 0 || n == live {
				continue
			}
			// The recorded finding: DBSIZE also counts the backend's key set and foreign keys.
			other := 0
			for _, s := range g.nodes {
				for _, x := range s.Keys(g.db) {
					if x == g.set || strings.HasPrefix(x, "foreign-") {
						other++
					}
				}
			}
			if n == live+other {
				r.Violate("count-is-dbsize", "%s: Count reports %d with %d live items (it counts %d keys that are not items)", g.kind, n, live, other)
			} else {
				bad("count", "Count reports %d with %d live items and %d other keys", n, live, other)
				return
			}
		default: // let short lifetimes elapse
			time.Sleep(time.Duration(rng.Intn(130)) * time.Millisecond)
			hist = append(hist, "sleep")
		}
	}
	for _, n := range g.nodes {
		for f := 0; f < foreign; f++ {
			_ = f
		}
		for _, l := range n.Log() {
			if strings.HasPrefix(l, "UNSUPPORTED") {
				r.Inconclusive("backend used a command the test server does not implement: " + l)
			}
		}
	}
	// Foreign keys survive anything but Clear.
	got := 0
	for _, n := range g.nodes {
		for _, x := range n.Keys(g.db) {
			if strings.HasPrefix(x, "foreign-") {
				got++
			}
		}
	}
	if got != foreign {
		bad("foreign", "%d foreign keys left of %d", got, foreign)
	}
	if i < 2 {
		r.Sample("history-"+g.kind, tail(hist, 12))
	}
}

func clip(v any) string { s := fmt.Sprintf("%v", v); return s[:min(len(s), 20)] }

func tail(h []string, n int) []string {
	if len(h) > n {
		return h[len(h)-n:]
	}
	return h
}

// faults: an operation that reports success really happened; corrupted entries never
// surface, never panic and never damage other reads.
func faults(r *kit.Run, g *rig) {
	ctx := context.Background()
	for i := 0; i < r.N(60, 1500); i++ {
		g.reset()
		rng := r.Rand("faults-"+g.kind, i)
		target := []string{"HSET", "SADD", "PEXPIRE", "EXPIRE", "PERSIST", "SREM", "DEL", "HGET", "SISMEMBER", "SMEMBERS", "HGETALL", "FLUSHDB", "EXEC"}[rng.Intn(13)]
		var armed atomic.Bool
		for _, n := range g.nodes {
			n.FailWith(func(cmd []string) string {
				if armed.Load() && strings.EqualFold(cmd[0], target) {
					return "ERR injected fault"
				}
				return ""
			})
		}
		_ = g.b.Set(ctx, &cache.Item{Key: "stable", Value: "s"})
		_ = g.b.Set(ctx, &cache.Item{Key: "old", Value: "o", Expiration: time.Hour})
		armed.Store(true)
		k := []string{"old", "fresh"}[rng.Intn(2)]
		errSet := g.b.Set(ctx, &cache.Item{Key: k, Value: "new"})
		itA, okA := g.b.Get(ctx, k)
		armed.Store(false)
		it, ok := g.b.Get(ctx, k)
		r.Case(fmt.Sprintf("%s:fault:set:%s:%s", g.kind, target, k), true)
		if errSet == nil && (!ok || it.Value != "new") {
			r.Violate("fault-set:"+g.kind, "with %s failing, Set reported success but Get returns %v,%v", target, it, ok)
		}
		if okA && (itA == nil || (itA.Value != "new" && itA.Value != "o")) {
			r.Violate("fault-get:"+g.kind, "with %s failing, Get returned %v", target, itA)
		}
		armed.Store(true)
		errRm := g.b.Remove(ctx, "old")
		armed.Store(false)
		if _, ok := g.b.Get(ctx, "old"); errRm == nil && ok {
			r.Violate("fault-remove:"+g.kind, "with %s failing, Remove reported success but the item is still there", target)
		}
		armed.Store(true)
		errCl := g.b.Clear(ctx)
		armed.Store(false)
		if _, ok := g.b.Get(ctx, "stable"); errCl == nil && ok {
			r.Violate("fault-clear:"+g.kind, "with %s failing, Clear reported success but an item is still there", target)
		} else if errCl != nil && target != "FLUSHDB" && g.kind == "redis" {
			r.Violate("fault-clear-error:"+g.kind, "with %s failing, Clear reported %v", target, errCl)
		}
		armed.Store(true)
		_, errL := g.b.List(ctx)
		armed.Store(false)
		if errL == nil && target == "SMEMBERS" {
			r.Violate("fault-list:"+g.kind, "with SMEMBERS failing, List reported success")
		}
		r.Seen("fault", target)
		for _, n := range g.nodes {
			n.FailWith(nil)
		}
	}
	for i := 0; i < r.N(120, 3000); i++ {
		g.reset()
		rng := r.Rand("corrupt-"+g.kind, i)
		full := &cache.Item{Key: "victim", Value: map[string]any{"a": "b"}, Size: 7, AccessCount: 3, Expiration: time.Hour}
		ok1 := &cache.Item{Key: "healthy", Value: "h", Size: 5}
		if g.b.Set(ctx, full) != nil || g.b.Set(ctx, ok1) != nil {
			continue
		}
		junk := []string{"", "{", "null", "[]", "\"str\"", "{\"Key\":\"victim\",\"Size\":\"notanumber\"}", "{\"Key\":\"victim\",\"Value\":\"par", "\x00\xff", "{\"Size\":99,\"AccessCount\":-1}"}[rng.Intn(9)]
		g.node("victim").SetHash(g.db, "victim", "data", junk)
		it, ok := g.b.Get(ctx, "victim")
		r.Case(fmt.Sprintf("%s:corrupt:%q", g.kind, junk), true)
		if ok && it != nil && it.Key == "victim" && reflect.DeepEqual(it.Value, full.Value) {
			r.Violate("corrupt-served:"+g.kind, "a corrupted entry %q was served as the original", junk)
		}
		if ok && junk != "null" {
			r.Violate("corrupt-get:"+g.kind, "Get served %+v from the undecodable entry %q", it, junk)
		}
		items, err := g.b.List(ctx)
		if err != nil {
			continue
		}
		for _, x := range items {
			if x.Key == "healthy" {
				if d := eqItem(x, ok1); d != "" {
					r.Violate("corrupt-leak:"+g.kind, "after decoding the corrupted entry %q, the healthy item lists with %s", junk, d)
				}
			} else if x.Key == "victim" && junk != "null" {
				r.Violate("corrupt-listed:"+g.kind, "List served %+v from the undecodable entry %q", x, junk)
			}
		}
		if x, ok := g.b.Get(ctx, "healthy"); !ok {
			r.Violate("corrupt-hides:"+g.kind, "a corrupted entry %q hides a healthy item", junk)
		} else if d := eqItem(x, ok1); d != "" {
			r.Violate("corrupt-leak:"+g.kind, "after decoding the corrupted entry %q, the healthy item reads with %s", junk, d)
		}
	}
	// Dropped connections: reads and acknowledged writes stay truthful.
	for i := 0; i < r.N(20, 300); i++ {
		g.reset()
		var wg sync.WaitGroup
		stop := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
					for _, n := range g.nodes {
						n.DropConnections()
					}
				}
			}
		}()
		acked := map[string]string{}
		maybe := map[string]bool{}
		for j := 0; j < 20; j++ {
			k, v := fmt.Sprintf("k%d", j%5), fmt.Sprintf("v%d", j)
			if g.b.Set(ctx, &cache.Item{Key: k, Value: v}) == nil {
				acked[k] = v
				maybe[k] = false
			} else {
				maybe[k] = true
			}
		}
		close(stop)
		wg.Wait()
		time.Sleep(2 * time.Millisecond)
		for k, v := range acked {
			var it *cache.Item
			ok := false
			for a := 0; a < 5 && !ok; a++ { // a read may itself hit a dead pooled connection
				it, ok = g.b.Get(ctx, k)
			}
			r.Case(fmt.Sprintf("%s:drop:%d:%s", g.kind, i, k), true)
			if !ok || (!maybe[k] && it.Value != v) {
				r.Violate("drop:"+g.kind, "acknowledged write %s=%s reads back as %v,%v after connection drops", k, v, it, ok)
			}
		}
	}
}

type ev struct {
	op  string
	val string
	ok  bool
}

var regModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(s, in, out any) (bool, any) {
		i, o := in.(ev), out.(ev)
		switch i.op {
		case "set":
			return true, i.val
		case "rm":
			return true, ""
		}
		if !o.ok {
			return s.(string) == "", s
		}
		return s.(string) == o.val, s
	},
	Equal: func(a, b any) bool { return a == b },
}

func concurrent(r *kit.Run, g *rig, cluster bool) {
	ctx := context.Background()
	for i := 0; i < r.N(25, 500); i++ {
		g.reset()
		lat := r.Rand("lat-"+g.kind, i)
		var lmu sync.Mutex
		for _, n := range g.nodes {
			n.Latency = func() time.Duration {
				lmu.Lock()
				defer lmu.Unlock()
				if lat.Intn(4) == 0 {
					return time.Duration(lat.Intn(300)) * time.Microsecond
				}
				return 0
			}
		}
		keys := []string{"x", "y{1}", "z"}
		hist := map[string][]porcupine.Operation{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		t0 := time.Now()
		for c := 0; c < 6; c++ {
			rng := r.Rand("conc-"+g.kind, i, c)
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				for j := 0; j < 14; j++ {
					k := keys[rng.Intn(len(keys))]
					in, out := ev{}, ev{}
					// The cluster backend spans nodes without transactions: removal concurrent with
					// a write of the same key is left to the standalone backend.
					p := rng.Intn(10)
					call := time.Since(t0).Nanoseconds()
					switch {
					case p < 4:
						in = ev{op: "set", val: fmt.Sprintf("%d-%d", c, j)}
						if err := g.b.Set(ctx, &cache.Item{Key: k, Value: in.val}); err != nil {
							r.Violate("concurrent-set-error:"+g.kind, "Set failed: %v", err)
							return
						}
					case p < 6 && !cluster:
						in = ev{op: "rm"}
						if err := g.b.Remove(ctx, k); err != nil {
							r.Violate("concurrent-remove-error:"+g.kind, "Remove failed: %v", err)
							return
						}
					default:
						in = ev{op: "get"}
						it, ok := g.b.Get(ctx, k)
						out.ok = ok
						if ok {
							s, is := it.Value.(string)
							if !is || it.Key != k {
								r.Violate("concurrent-mixed:"+g.kind, "Get(%s) returned key %q value %v", k, it.Key, it.Value)
								return
							}
							out.val = s
						}
					}
					ret := time.Since(t0).Nanoseconds()
					mu.Lock()
					hist[k] = append(hist[k], porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
					mu.Unlock()
				}
			}(c)
		}
		wg.Wait()
		for k, h := range hist {
			res := porcupine.CheckOperationsTimeout(regModel, h, 20*time.Second)
			r.Case(fmt.Sprintf("%s:lin:%d:%s", g.kind, i, k), len(h) > 3)
			r.Add("operations_linearized", int64(len(h)))
			if res == porcupine.Illegal {
				r.ViolateWith("linearizability:"+g.kind, h, "history of key %s with %d operations is not linearizable", k, len(h))
			} else if res == porcupine.Unknown {
				r.Inconclusive("porcupine timeout")
			}
		}
		for _, n := range g.nodes {
			n.Latency = nil
		}
	}
}
