// C20: concurrent cache operations behave as if executed one at a time.
//
// Oracle: every recorded concurrent history (call and return times, arguments, results) is checked for per-key
// linearizability with porcupine; payload integrity, copy isolation and the race detector watch the rest.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cachev2 "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type in struct {
	Op  string // set get remove pop has getorset removeErr
	Val int
}
type out struct {
	Val int // 0 = absent
}

// model: state is the value held (0 = absent). evict = the cache may drop the key at any moment.
func mkModel(evict bool) porcupine.Model {
	nd := porcupine.NondeterministicModel{
		Init: func() []any { return []any{0} },
		Step: func(st, i, o any) []any {
			s, a, b := st.(int), i.(in), o.(out)
			res := []any{}
			starts := []int{s}
			if evict && s != 0 {
				starts = append(starts, 0)
			}
			for _, x := range starts {
				switch a.Op {
				case "set":
					res = append(res, a.Val)
				case "setfail": // refused writes leave the key alone
					res = append(res, x)
				case "get":
					if b.Val == x {
						res = append(res, x)
					}
				case "has":
					if (b.Val != 0) == (x != 0) {
						res = append(res, x)
					}
				case "touch":
					if (b.Val != 0) == (x != 0) {
						res = append(res, x)
					}
				case "pop":
					if b.Val == x {
						res = append(res, 0)
					}
				case "remove":
					res = append(res, 0)
				case "removeErr":
					res = append(res, 0, x)
				case "getorset":
					if x == 0 && b.Val == a.Val {
						res = append(res, a.Val)
					}
					if x != 0 && b.Val == x {
						res = append(res, x)
					}
				}
			}
			return res
		},
		Equal:             func(a, b any) bool { return a == b },
		DescribeOperation: func(i, o any) string { return fmt.Sprintf("%v -> %v", i, o) },
	}
	return nd.ToModel()
}

type rec struct {
	mu sync.Mutex
	h  map[string][]porcupine.Operation
	t0 time.Time
}

func newRec() *rec        { return &rec{h: map[string][]porcupine.Operation{}, t0: time.Now()} }
func (r *rec) now() int64 { return int64(time.Since(r.t0)) }
func (r *rec) add(k string, c int, i in, o out, call, ret int64) {
	r.mu.Lock()
	r.h[k] = append(r.h[k], porcupine.Operation{ClientId: c, Input: i, Output: o, Call: call, Return: ret})
	r.mu.Unlock()
}

func check(r *kit.Run, label string, m porcupine.Model, rc *rec) {
	for k, h := range rc.h {
		over := 0
		for i := range h {
			for j := range i {
				if h[i].Call < h[j].Return && h[j].Call < h[i].Return && h[i].ClientId != h[j].ClientId {
					over++
				}
			}
		}
		r.Add("overlapping-pairs", int64(over))
		r.Add("ops-checked", int64(len(h)))
		switch porcupine.CheckOperationsTimeout(m, h, 20*time.Second) {
		case porcupine.Illegal:
			r.ViolateWith("not-linearizable:"+label, describe(h), "%s: the history of key %q (%d operations, %d overlapping pairs) has no linearization", label, k, len(h), over)
		case porcupine.Unknown:
			r.Inconclusive("linearizability search ran out of time")
		}
		r.Case(fmt.Sprintf("%s/%s/%d/%d", label, k, len(h), h[len(h)-1].Return), over > 0)
	}
}

func describe(h []porcupine.Operation) []string {
	var s []string
	for _, o := range h {
		s = append(s, fmt.Sprintf("[%d,%d] c%d %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
	}
	return s
}

func newCache(capacity int, opts ...hypercache.Option[backend.InMemory]) *hypercache.HyperCache[backend.InMemory] {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = opts
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

func main() {
	kit.Main("C20", "a distinct per-key history with overlapping operations", func(r *kit.Run) {
		mapPhase(r)
		cachePhase(r, "cache", 0)
		cachePhase(r, "evicting", 3)
		abandoned(r)
		isolation(r)
		chaos(r)
	})
}

func mapPhase(r *kit.Run) {
	if !r.Phase("map") {
		return
	}
	m := mkModel(false)
	for i := 0; i < r.N(250, 4000); i++ {
		g := r.Rand("map", i)
		cm := cachev2.New()
		rc := newRec()
		keys := []string{"a", "b", "c"}[:1+g.Intn(3)]
		clients := 2 + g.Intn(6)
		var wg sync.WaitGroup
		var ids atomic.Int64
		start := make(chan struct{})
		for c := 0; c < clients; c++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < 18; n++ {
					k := keys[h.Intn(len(keys))]
					if h.Intn(5) == 0 {
						runtime.Gosched()
					}
					call := rc.now()
					switch h.Intn(10) {
					case 0, 1, 2:
						v := int(ids.Add(1))
						cm.Set(k, &cachev2.Item{Key: k, Value: v})
						rc.add(k, c, in{"set", v}, out{}, call, rc.now())
					case 3, 4:
						it, ok := cm.GetCopy(k)
						rc.add(k, c, in{"get", 0}, out{val(it, ok)}, call, rc.now())
					case 5:
						it, ok := cm.Get(k)
						rc.add(k, c, in{"get", 0}, out{val(it, ok)}, call, rc.now())
					case 6:
						ok := cm.Has(k)
						rc.add(k, c, in{"has", 0}, out{b2i(ok)}, call, rc.now())
					case 7:
						it, ok := cm.Pop(k)
						rc.add(k, c, in{"pop", 0}, out{val(it, ok)}, call, rc.now())
					case 8:
						cm.Remove(k)
						rc.add(k, c, in{"remove", 0}, out{}, call, rc.now())
					case 9:
						if h.Intn(3) == 0 {
							cm.Clear()
							ret := rc.now()
							for _, k := range keys {
								rc.add(k, c, in{"remove", 0}, out{}, call, ret)
							}
						} else {
							ok := cm.Touch(k)
							rc.add(k, c, in{"touch", 0}, out{b2i(ok)}, call, rc.now())
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		n := 0
		for _, k := range keys {
			if cm.Has(k) {
				n++
			}
		}
		if cm.Count() != n {
			r.Violate("map-count", "after a concurrent history the map counts %d items and holds %d", cm.Count(), n)
		}
		check(r, "map", m, rc)
	}
}

func val(it *cachev2.Item, ok bool) int {
	if !ok || it == nil {
		return 0
	}
	v, _ := it.Value.(int)
	return v
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func anyVal(v any, ok bool) int {
	if !ok {
		return 0
	}
	i, isInt := v.(int)
	if !isInt {
		return -1
	}
	return i
}

func cachePhase(r *kit.Run, label string, capacity int) {
	if !r.Phase(label) {
		return
	}
	m := mkModel(capacity > 0)
	ctx := context.Background()
	algos := []string{"lru", "lfu", "clock", "cawolfu"}
	for i := 0; i < r.N(150, 2500); i++ {
		g := r.Rand(label, i)
		opts := []hypercache.Option[backend.InMemory]{
			hypercache.WithExpirationInterval[backend.InMemory](time.Duration(1+g.Intn(3)) * time.Millisecond),
			hypercache.WithEvictionAlgorithm[backend.InMemory](algos[i%4]),
			hypercache.WithEvictionInterval[backend.InMemory](time.Duration(g.Intn(2)) * time.Millisecond),
		}
		if g.Intn(2) == 0 {
			opts = append(opts, hypercache.WithEvictionShardCount[backend.InMemory](1))
		}
		hc := newCache(capacity, opts...)
		rc := newRec()
		nk := 1 + g.Intn(3)
		if capacity > 0 {
			nk = 3 + g.Intn(4)
		}
		keys := []string{"a", "b", "c", "d", "e", "f"}[:nk]
		clients := 2 + g.Intn(6)
		var wg sync.WaitGroup
		var ids atomic.Int64
		start := make(chan struct{})
		for c := 0; c < clients; c++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < 16; n++ {
					k := keys[h.Intn(len(keys))]
					var call int64
					switch x := h.Intn(20); {
					case x < 5:
						v := int(ids.Add(1))
						call = rc.now()
						err := hc.Set(ctx, k, v, 0)
						ret := rc.now()
						if err != nil {
							r.Violate("set-error", "%s: Set(%q) = %v", label, k, err)
						}
						rc.add(k, c, in{"set", v}, out{}, call, ret)
					case x < 8:
						call = rc.now()
						v, ok := hc.Get(ctx, k)
						rc.add(k, c, in{"get", 0}, out{anyVal(v, ok)}, call, rc.now())
					case x < 10:
						call = rc.now()
						it, ok := hc.GetWithInfo(ctx, k)
						rc.add(k, c, in{"get", 0}, out{val(it, ok)}, call, rc.now())
						if ok && it.Key != k {
							r.Violate("wrong-item", "%s: GetWithInfo(%q) returned the item of %q", label, k, it.Key)
						}
					case x < 11:
						call = rc.now()
						res, failed := hc.GetMultiple(ctx, keys...)
						ret := rc.now()
						for _, k := range keys {
							v, ok := res[k]
							if _, f := failed[k]; f == ok {
								r.Violate("multiple", "%s: GetMultiple reports %q both found and failed, or neither", label, k)
							}
							rc.add(k, c, in{"get", 0}, out{anyVal(v, ok)}, call, ret)
						}
					case x < 14:
						v := int(ids.Add(1))
						call = rc.now()
						got, err := hc.GetOrSet(ctx, k, v, 0)
						ret := rc.now()
						if err != nil {
							r.Violate("getorset-error", "%s: GetOrSet(%q) = %v", label, k, err)
						}
						rc.add(k, c, in{"getorset", v}, out{anyVal(got, true)}, call, ret)
					case x < 16:
						call = rc.now()
						err := hc.Remove(ctx, k)
						ret := rc.now()
						if err != nil {
							r.Violate("remove-error", "%s: Remove(%q) = %v", label, k, err)
						}
						rc.add(k, c, in{"remove", 0}, out{}, call, ret)
					case x < 17:
						k2 := keys[h.Intn(len(keys))]
						call = rc.now()
						_ = hc.Remove(ctx, k, k2)
						ret := rc.now()
						rc.add(k, c, in{"remove", 0}, out{}, call, ret)
						// Removing a key twice in one call is two removals, with whatever comes between.
						rc.add(k2, c, in{"remove", 0}, out{}, call, ret)
					case x < 18: // a refused write
						call = rc.now()
						var err error
						if h.Intn(2) == 0 {
							err = hc.Set(ctx, k, nil, 0)
						} else {
							err = hc.Set(ctx, k, 7, -time.Second)
						}
						ret := rc.now()
						if err == nil {
							r.Violate("bad-write-accepted", "%s: an invalid write of %q was accepted", label, k)
						}
						rc.add(k, c, in{"setfail", 0}, out{}, call, ret)
					case x < 19:
						c2, cancel := context.WithCancel(ctx)
						if h.Intn(2) == 0 {
							cancel()
						} else {
							go cancel()
						}
						call = rc.now()
						err := hc.Remove(c2, k)
						ret := rc.now()
						cancel()
						op := "remove"
						if err != nil {
							op = "removeErr"
						}
						rc.add(k, c, in{op, 0}, out{}, call, ret)
					default:
						if h.Intn(3) == 0 {
							call = rc.now()
							err := hc.Clear(ctx)
							ret := rc.now()
							if err != nil {
								r.Violate("clear-error", "%s: Clear = %v", label, err)
							}
							for _, k := range keys {
								rc.add(k, c, in{"remove", 0}, out{}, call, ret)
							}
						} else {
							hc.TriggerExpiration()
							hc.TriggerEviction(ctx)
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		_ = hc.Stop(ctx)
		check(r, label, m, rc)
		if i < 2 {
			for k, h := range rc.h {
				r.Sample(label, map[string]any{"key": k, "history": describe(h)[:min(8, len(h))]})
				break
			}
		}
	}
}

// abandoned: a removal the caller gave up on must not take effect after it returned.
func abandoned(r *kit.Run) {
	if !r.Phase("abandoned") {
		return
	}
	ctx := context.Background()
	hc := newCache(0)
	defer hc.Stop(ctx)
	for i := 0; i < r.N(3000, 60000); i++ {
		c2, cancel := context.WithCancel(ctx)
		cancel()
		k := fmt.Sprint("k", i%5)
		var errRemove error
		if i%7 == 0 {
			errRemove = hc.Clear(c2)
		} else {
			errRemove = hc.Remove(c2, k)
		}
		if err := hc.Set(ctx, k, i, 0); err != nil {
			r.Violate("set-error", "Set = %v", err)
			return
		}
		for n := 0; n < 3; n++ {
			runtime.Gosched()
			if v, ok := hc.Get(ctx, k); !ok || v != any(i) {
				r.Violate("late-removal", "a removal that had returned (%v) deleted the value stored after it: Get(%q) = %v,%v", errRemove, k, v, ok)
				return
			}
		}
	}
	r.Case("abandoned", true)
}

// isolation: what a caller does with a returned item or list does not reach the cache.
func isolation(r *kit.Run) {
	if !r.Phase("isolation") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(40, 400); i++ {
		hc := newCache(0)
		_ = hc.Set(ctx, "k", i, time.Hour)
		_ = hc.Set(ctx, "l", -i, 0)
		scramble := func(it *cachev2.Item) {
			it.Key, it.Value, it.Expiration, it.Size, it.LastAccess, it.Version = "x", "scrambled", 1, -5, time.Time{}, 99
		}
		it, ok := hc.GetWithInfo(ctx, "k")
		if !ok {
			r.Violate("isolation", "item just set is missing")
			hc.Stop(ctx)
			continue
		}
		scramble(it)
		items, _ := hc.List(ctx)
		for _, it := range items {
			scramble(it)
		}
		items, _ = hc.List(ctx, backend.WithSortBy(constants.SortByKey.String()))
		for _, it := range items {
			scramble(it)
		}
		a, ok1 := hc.GetWithInfo(ctx, "k")
		b, ok2 := hc.GetWithInfo(ctx, "l")
		if !ok1 || !ok2 || a.Key != "k" || a.Value != any(i) || a.Expiration != time.Hour || b.Value != any(-i) || b.Key != "l" || b.Expiration != 0 {
			r.Violate("isolation", "changing a returned item changed the cache: %+v %+v", a, b)
		}
		hc.Stop(ctx)
		r.Case(fmt.Sprint("isolation", i), true)
	}
}

// chaos: every public method at once, under the race detector; payloads must be whole.
func chaos(r *kit.Run) {
	if !r.Phase("chaos") {
		return
	}
	for i := 0; i < r.N(12, 120); i++ {
		g := r.Rand("chaos", i)
		capacity := []int{0, 4, 20, 100}[g.Intn(4)]
		opts := []hypercache.Option[backend.InMemory]{
			hypercache.WithExpirationInterval[backend.InMemory](time.Millisecond),
			hypercache.WithEvictionAlgorithm[backend.InMemory]([]string{"lru", "lfu", "clock", "cawolfu"}[g.Intn(4)]),
			hypercache.WithEvictionInterval[backend.InMemory](time.Duration(g.Intn(3)) * time.Millisecond),
			hypercache.WithMaxCacheSize[backend.InMemory]([]int64{0, 4000, 100000}[g.Intn(3)]),
		}
		hc := newCache(capacity, opts...)
		ctx := context.Background()
		var wg sync.WaitGroup
		stop := time.Now().Add(time.Duration(r.N(250, 1000)) * time.Millisecond)
		var nops atomic.Int64
		for c := 0; c < 10; c++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(stop) {
					nops.Add(1)
					k := fmt.Sprint("k", h.Intn(30))
					switch h.Intn(16) {
					case 0, 1, 2:
						_ = hc.Set(ctx, k, payload(k, h), time.Duration(h.Intn(4))*time.Millisecond)
					case 3, 4:
						if v, ok := hc.Get(ctx, k); ok {
							whole(r, k, v)
						}
					case 5:
						if it, ok := hc.GetWithInfo(ctx, k); ok {
							whole(r, k, it.Value)
							if it.Size != int64(len(it.Value.(string))) {
								r.Violate("mixed-item", "the item of %q has size %d and a value of %d bytes", k, it.Size, len(it.Value.(string)))
							}
						}
					case 6:
						res, _ := hc.GetMultiple(ctx, k, "k1", "k2")
						for k, v := range res {
							whole(r, k, v)
						}
					case 7:
						if v, err := hc.GetOrSet(ctx, k, payload(k, h), time.Duration(h.Intn(4))*time.Millisecond); err == nil {
							whole(r, k, v)
						}
					case 8:
						_ = hc.Remove(ctx, k)
					case 9:
						items, err := hc.List(ctx)
						if err != nil {
							r.Violate("list-error", "List: %v", err)
						}
						for _, it := range items {
							whole(r, it.Key, it.Value)
						}
					case 10:
						if h.Intn(10) == 0 {
							_ = hc.Clear(ctx)
						}
					case 11:
						hc.SetCapacity(ctx, []int{0, 3, 50}[h.Intn(3)])
					case 12:
						hc.TriggerEviction(ctx)
						hc.TriggerExpiration()
					case 13:
						_ = hc.Count(ctx) + hc.Capacity() + int(hc.Allocation()) + int(hc.MaxCacheSize())
					case 14:
						_ = hc.GetStats()
					default:
						_ = hc.EvictionAlgorithm() + hc.ManagementHTTPAddress()
					}
				}
			}()
		}
		wg.Wait()
		_ = hc.Stop(ctx)
		r.Add("chaos-ops", nops.Load())
		r.Case(fmt.Sprint("chaos", i, nops.Load()), true)
	}
}

func payload(k string, h *rand.Rand) string {
	unit := fmt.Sprintf("<%s#%d>", k, h.Intn(1000))
	return strings.Repeat(unit, 1+h.Intn(20))
}

func whole(r *kit.Run, k string, v any) {
	s, ok := v.(string)
	if !ok || !strings.HasPrefix(s, "<"+k+"#") {
		r.Violate("torn-value", "%q reads %.60v", k, v)
		return
	}
	unit := s[:strings.IndexByte(s, '>')+1]
	if strings.Repeat(unit, len(s)/len(unit)) != s {
		r.Violate("torn-value", "%q reads a mixture of two writes: %.80q", k, s)
	}
}
