// C22: size accounting is exact and the configured limits hold.
//
// Oracle: a reference model (key -> size) run in step with the real cache, compared after every sequential operation;
// for concurrent, expiring and evicting workloads the listing taken once the cache is quiet is the reference.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

type (
	opt = hypercache.Option[backend.InMemory]
	hcT = hypercache.HyperCache[backend.InMemory]
)

type sizer int

func (s sizer) SizeBytes() int { return int(s) }

type marsh struct{ n int }

func (m marsh) MarshalBinary() ([]byte, error) {
	if m.n < 0 {
		return nil, errors.New("cannot encode")
	}
	return make([]byte, m.n), nil
}

func tryCache(capacity int, opts ...opt) (*hcT, error) {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = opts
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	return hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
}

func newCache(capacity int, opts ...opt) *hcT {
	hc, err := tryCache(capacity, opts...)
	if err != nil {
		panic(err)
	}
	return hc
}

var (
	ctx   = context.Background()
	algos = []string{"lru", "lfu", "clock", "cawolfu", ""}
)

func evictEvery(d time.Duration) opt { return hypercache.WithEvictionInterval[backend.InMemory](d) }
func expireEvery(d time.Duration) opt {
	return hypercache.WithExpirationInterval[backend.InMemory](d)
}
func algo(i int) opt   { return hypercache.WithEvictionAlgorithm[backend.InMemory](algos[i%len(algos)]) }
func shards(n int) opt { return hypercache.WithEvictionShardCount[backend.InMemory](n) }

func main() {
	kit.Main("C22", "a state of the cache compared with the reference", func(r *kit.Run) {
		sequential(r)
		capacitySeq(r)
		capacityLoop(r)
		maxPerRun(r)
		config(r)
		concurrent(r)
	})
}

// settled lists the cache and reports the keys and the total size, after checking them against the counters.
func settled(r *kit.Run, hc *hcT, label string) (map[string]int64, int64) {
	items, err := hc.List(ctx)
	if err != nil {
		r.Violate("list-error", "%s: List = %v", label, err)
		return nil, 0
	}
	keys, sum := map[string]int64{}, int64(0)
	for _, it := range items {
		if _, dup := keys[it.Key]; dup {
			r.Violate("listed-twice", "%s: %q is listed twice", label, it.Key)
		}
		keys[it.Key] = it.Size
		sum += it.Size
	}
	return keys, sum
}

func quiet(r *kit.Run, hc *hcT, label string) map[string]int64 {
	keys, sum := settled(r, hc, label)
	if a := hc.Allocation(); a != sum {
		r.Violate("allocation", "%s: the reported allocation is %d, the %d items held total %d", label, a, len(keys), sum)
	}
	if n := hc.Count(ctx); n != len(keys) {
		r.Violate("count", "%s: the reported count is %d, %d items are held", label, n, len(keys))
	}
	return keys
}

// value returns a value of the given size in one of the sizeable representations.
func value(g *rand.Rand, n int) any {
	switch g.Intn(4) {
	case 0:
		return strings.Repeat("x", n)
	case 1:
		return make([]byte, n)
	case 2:
		return sizer(n)
	default:
		return marsh{n}
	}
}

// sequential: every operation on one goroutine, compared after each.
func sequential(r *kit.Run) {
	if !r.Phase("sequential") {
		return
	}
	for i := 0; i < r.N(250, 6000); i++ {
		g := r.Rand("sequential", i)
		limit := int64(0)
		if g.Intn(3) > 0 {
			limit = int64(1 + g.Intn(120))
		}
		hc := newCache(0, evictEvery(time.Hour), expireEvery(time.Hour), algo(g.Intn(5)),
			hypercache.WithMaxCacheSize[backend.InMemory](limit))
		if hc.MaxCacheSize() != limit {
			r.Violate("limit-config", "a limit of %d was configured, %d is reported", limit, hc.MaxCacheSize())
		}
		type ent struct {
			size int64
			v    any
		}
		m := map[string]ent{}
		total := func() (t int64) {
			for _, e := range m {
				t += e.size
			}
			return
		}
		keys := []string{"a", "b", "c", "d", "e", "f g", "\x00", "é"}
		var trace []string
		refused := 0
		write := func(k string, set func(v any) (bool, error)) { // set reports whether it stored v
			n := g.Intn(40)
			if limit > 0 && g.Intn(3) == 0 { // aim at the limit: exactly fitting, or one byte more
				n = int(limit-total()+m[k].size) + g.Intn(3) - 1
				if n < 0 {
					n = 0
				}
			}
			v := value(g, n)
			growth := int64(n) - m[k].size
			wantFull := limit > 0 && growth > 0 && total()+growth > limit
			stored, err := set(v)
			trace = append(trace, fmt.Sprintf("write %q %d -> %v %v", k, n, stored, err))
			switch {
			case wantFull && !errors.Is(err, sentinel.ErrCacheFull):
				r.ViolateWith("not-refused", trace, "with %d of %d bytes used, a write growing the cache by %d was not refused (%v)", total(), limit, growth, err)
			case !wantFull && err != nil:
				r.ViolateWith("refused", trace, "with %d of %d bytes used, a write growing the cache by %d was refused: %v", total(), limit, growth, err)
			}
			if err != nil {
				refused++
			} else if stored {
				m[k] = ent{int64(n), v}
			}
		}
		for n := 0; n < 40; n++ {
			k := keys[g.Intn(len(keys))]
			switch g.Intn(12) {
			case 0, 1, 2, 3:
				write(k, func(v any) (bool, error) { return true, hc.Set(ctx, k, v, 0) })
			case 4, 5:
				if old, ok := m[k]; ok {
					got, err := hc.GetOrSet(ctx, k, "a new value, never stored", 0)
					if err != nil || fmt.Sprint(got) != fmt.Sprint(old.v) {
						r.Violate("getorset", "GetOrSet of a held key = %v, %v", got, err)
					}
				} else {
					write(k, func(v any) (bool, error) {
						got, err := hc.GetOrSet(ctx, k, v, 0)
						if err == nil && fmt.Sprint(got) != fmt.Sprint(v) {
							r.Violate("getorset", "GetOrSet of an absent key returned %v instead of %v", got, v)
						}
						return true, err
					})
				}
			case 6: // writes that must fail and change nothing
				var err error
				var what string
				switch g.Intn(6) {
				case 0:
					what, err = "nil value", hc.Set(ctx, k, nil, 0)
				case 1:
					what, err = "negative lifetime", hc.Set(ctx, k, "twelve bytes", -time.Second)
				case 2:
					what, err = "blank key", hc.Set(ctx, " ", "twelve bytes", 0)
				case 3:
					what, err = "unencodable value", hc.Set(ctx, k, marsh{-1}, 0)
				case 4:
					if _, held := m[k]; held {
						continue
					}
					_, err = hc.GetOrSet(ctx, k, marsh{-1}, 0)
					what = "unencodable value (GetOrSet)"
				default:
					if _, held := m[k]; held {
						continue
					}
					_, err = hc.GetOrSet(ctx, k, "twelve bytes", -1)
					what = "negative lifetime (GetOrSet)"
				}
				trace = append(trace, fmt.Sprintf("bad write %s %q -> %v", what, k, err))
				if err == nil {
					r.ViolateWith("bad-write", trace, "a write with a %s was accepted", what)
				}
				refused++
			case 7, 8:
				ks := []string{k}
				for g.Intn(2) == 0 {
					ks = append(ks, append(keys, "absent", k)[g.Intn(len(keys)+2)])
				}
				err := hc.Remove(ctx, ks...)
				trace = append(trace, fmt.Sprintf("remove %q -> %v", ks, err))
				if err != nil {
					r.Violate("remove-error", "Remove(%q) = %v", ks, err)
				}
				for _, k := range ks {
					delete(m, k)
				}
			case 9:
				if g.Intn(6) == 0 {
					err := hc.Clear(ctx)
					trace = append(trace, fmt.Sprintf("clear -> %v", err))
					if err != nil {
						r.Violate("clear-error", "Clear = %v", err)
					}
					clear(m)
				}
			case 10: // given up before it began: done or not, the accounting follows
				c2, cancel := context.WithCancel(ctx)
				cancel()
				err := hc.Remove(c2, k)
				trace = append(trace, fmt.Sprintf("cancelled remove %q -> %v", k, err))
				if _, ok := hc.Get(ctx, k); !ok {
					delete(m, k)
				} else if err == nil {
					r.ViolateWith("remove-ignored", trace, "Remove(%q) reported success and the key is still there", k)
				}
			default:
				hc.Get(ctx, k)
				hc.GetMultiple(ctx, keys...)
			}
			got := quiet(r, hc, "sequential")
			if a := hc.Allocation(); a != total() {
				r.ViolateWith("allocation-model", trace, "the reported allocation is %d, the items written and kept total %d", a, total())
				break
			}
			if limit > 0 && hc.Allocation() > limit {
				r.ViolateWith("over-limit", trace, "%d bytes are allocated, the limit is %d", hc.Allocation(), limit)
			}
			same := len(got) == len(m)
			for k, e := range m {
				if s, ok := got[k]; !ok || s != e.size {
					same = false
				}
				if v, ok := hc.Get(ctx, k); !ok || fmt.Sprint(v) != fmt.Sprint(e.v) {
					r.ViolateWith("value", trace, "%q holds %v instead of the last value accepted", k, v)
				}
			}
			if !same {
				r.ViolateWith("held", trace, "the cache holds %v, the model %v", got, m)
				break
			}
			r.Add("states-compared", 1)
		}
		r.Add("refused-writes", int64(refused))
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("seq/%d/%v", limit, trace), len(m) > 0)
	}
}

func keySet(m map[string]int64) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// capacitySeq: with immediate eviction, a write of a new key into a full cache costs exactly one other item.
func capacitySeq(r *kit.Run) {
	if !r.Phase("capacity") {
		return
	}
	for i := 0; i < r.N(160, 3000); i++ {
		g := r.Rand("capacity", i)
		capacity := []int{1, 2, 3, 5, 8, 33, 64}[g.Intn(7)]
		ns := []int{1, 2, 32, 0, 4}[g.Intn(5)]
		hc := newCache(capacity, evictEvery(0), expireEvery(time.Hour), algo(i), shards(ns))
		held := map[string]int64{}
		var trace []string
		evictions := 0
		label := fmt.Sprintf("capacity %d, %q, %d shards", capacity, algos[i%len(algos)], ns)
		for n := 0; n < 60+2*capacity; n++ {
			k := fmt.Sprintf("k%d", g.Intn(capacity*3+2))
			switch g.Intn(6) {
			case 0:
				hc.Get(ctx, k)
				continue
			case 1:
				_ = hc.Remove(ctx, k)
				delete(held, k)
				trace = append(trace, "remove "+k)
			case 2:
				if _, ok := held[k]; ok {
					continue
				}
				fallthrough
			default:
				var err error
				if _, ok := held[k]; !ok && g.Intn(2) == 0 {
					_, err = hc.GetOrSet(ctx, k, "v", 0)
				} else {
					err = hc.Set(ctx, k, "v", 0)
				}
				trace = append(trace, "set "+k)
				if err != nil {
					r.ViolateWith("capacity-write-error", trace, "%s: the write of %q failed: %v", label, k, err)
				}
				now := quiet(r, hc, label)
				full := len(held)
				held[k] = 1
				if _, ok := now[k]; !ok {
					r.ViolateWith("new-evicted", trace, "%s: %q was written and is already gone", label, k)
				}
				for x := range now {
					if _, ok := held[x]; !ok {
						r.ViolateWith("resurrected", trace, "%s: %q is back though it was evicted or removed", label, x)
					}
				}
				want := min(capacity, len(held))
				if len(now) != want {
					r.ViolateWith("capacity-count", trace, "%s: %d items are held after a write, %d were before, expected %d", label, len(now), full, want)
				}
				if len(held) > capacity {
					evictions++
				}
				held = now
			}
			r.Add("states-compared", 1)
		}
		r.Add("evictions", int64(evictions))
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("cap/%s/%s", label, strings.Join(trace, ",")), evictions > 0)
	}
}

func waitCount(hc *hcT, n int, d time.Duration) bool {
	end := time.Now().Add(d)
	for hc.Count(ctx) > n {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// capacityLoop: background eviction brings the cache back to its capacity and stops there.
func capacityLoop(r *kit.Run) {
	if !r.Phase("background") {
		return
	}
	for i := 0; i < r.N(70, 700); i++ {
		g := r.Rand("background", i)
		capacity := []int{1, 3, 10, 40, 100}[g.Intn(5)]
		n := capacity + g.Intn(3*capacity+2)
		mode := i % 5
		opts := []opt{expireEvery(time.Hour), algo(i / 5), shards([]int{1, 32}[g.Intn(2)])}
		label := fmt.Sprintf("capacity %d, %d items, %q, mode %d", capacity, n, algos[i/5%len(algos)], mode)
		start := capacity
		switch mode {
		case 0: // ticking loop
			opts = append(opts, evictEvery(time.Millisecond))
		case 1: // lowered by SetCapacity
			start, opts = n+1, append(opts, evictEvery(time.Hour))
		case 2: // unlimited, limited later
			start, opts = 0, append(opts, evictEvery([]time.Duration{0, time.Hour}[g.Intn(2)]))
		case 3: // manual trigger
			opts = append(opts, evictEvery(time.Hour), hypercache.WithMaxEvictionCount[backend.InMemory](uint(4*capacity+10)))
		case 4: // lowered by SetCapacity, immediate eviction
			start, opts = n+1, append(opts, evictEvery(0))
		}
		hc := newCache(start, opts...)
		size := map[string]int{}
		for j := 0; j < n; j++ {
			k, s := fmt.Sprintf("k%d", j), g.Intn(20)
			if err := hc.Set(ctx, k, sizer(s), 0); err != nil {
				r.Violate("background-write-error", "%s: Set = %v", label, err)
			}
			size[k] = s
		}
		if mode == 1 || mode == 2 || mode == 4 {
			if got := hc.Count(ctx); got != n {
				r.Violate("evicted-within-capacity", "%s: %d of %d items are held before the capacity was lowered", label, got, n)
			}
			hc.SetCapacity(ctx, capacity)
			if hc.Capacity() != capacity {
				r.Violate("capacity-set", "%s: SetCapacity(%d) left a capacity of %d", label, capacity, hc.Capacity())
			}
		}
		if mode == 3 {
			hc.TriggerEviction(ctx)
		}
		if !waitCount(hc, capacity, 15*time.Second) {
			r.Violate("stays-over-capacity", "%s: %d items are still held 15 s after eviction was due", label, hc.Count(ctx))
		}
		time.Sleep(4 * time.Millisecond)
		now := quietEventually(r, hc, label)
		if want := min(n, capacity); len(now) != want {
			r.Violate("over-evicted", "%s: eviction left %d items, expected %d", label, len(now), want)
		}
		for k, s := range now {
			if w, ok := size[k]; !ok || int64(w) != s {
				r.Violate("wrong-item", "%s: %q is held with size %d", label, k, s)
			}
		}
		// Within the capacity, nothing is ever evicted.
		for j := 0; j < 3; j++ {
			hc.TriggerEviction(ctx)
			time.Sleep(time.Millisecond)
		}
		if after, _ := settled(r, hc, label); !slices.Equal(keySet(after), keySet(now)) {
			r.Violate("evicted-within-capacity", "%s: triggering eviction within the capacity changed the items held from %v to %v", label, keySet(now), keySet(after))
		}
		r.Add("states-compared", 3)
		_ = hc.Stop(ctx)
		r.Case("bg/"+label, n > capacity)
	}
	// An unlimited cache never evicts.
	for i := range algos {
		hc := newCache(0, evictEvery(time.Millisecond), expireEvery(time.Millisecond), algo(i))
		for j := 0; j < 200; j++ {
			_ = hc.Set(ctx, fmt.Sprintf("k%d", j), "v", 0)
			if j%50 == 0 {
				hc.TriggerEviction(ctx)
			}
		}
		time.Sleep(8 * time.Millisecond)
		if n := len(quiet(r, hc, "unlimited")); n != 200 {
			r.Violate("unlimited-evicts", "%q: an unlimited cache holds %d of 200 items", algos[i], n)
		}
		_ = hc.Stop(ctx)
		r.Case("unlimited/"+algos[i], true)
	}
}

// quietEventually allows a background job in flight to finish before comparing.
func quietEventually(r *kit.Run, hc *hcT, label string) map[string]int64 {
	var last map[string]int64
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		keys, sum := settled(r, hc, label)
		last = keys
		if hc.Allocation() == sum && hc.Count(ctx) == len(keys) {
			return keys
		}
	}
	quiet(r, hc, label)
	return last
}

// maxPerRun: one run evicts no more than configured, and exactly that many when there is as much to evict.
func maxPerRun(r *kit.Run) {
	if !r.Phase("per-run") {
		return
	}
	for i := 0; i < r.N(30, 300); i++ {
		g := r.Rand("per-run", i)
		capacity, per := 1+g.Intn(20), 1+g.Intn(8)
		n := capacity + g.Intn(25)
		hc := newCache(capacity, evictEvery(time.Hour), expireEvery(time.Hour), algo(i), shards([]int{1, 32}[i%2]),
			hypercache.WithMaxEvictionCount[backend.InMemory](uint(per)))
		for j := 0; j < n; j++ {
			_ = hc.Set(ctx, fmt.Sprintf("k%d", j), "v", 0)
		}
		want := n
		for round := 0; round < 4; round++ {
			hc.TriggerEviction(ctx)
			want = max(capacity, want-per)
			if !waitCount(hc, want, 15*time.Second) {
				r.Violate("run-incomplete", "capacity %d, %d items, at most %d per run: %d items are held after run %d, expected %d", capacity, n, per, hc.Count(ctx), round+1, want)
				break
			}
			time.Sleep(3 * time.Millisecond)
			if got := len(quietEventually(r, hc, "per-run")); got != want {
				r.Violate("run-excess", "capacity %d, %d items, at most %d per run: %d items are held after run %d, expected %d", capacity, n, per, got, round+1, want)
				break
			}
			r.Add("states-compared", 1)
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("per/%d/%d/%d/%d", capacity, per, n, i%10), n > capacity+per)
	}
}

func config(r *kit.Run) {
	if !r.Phase("config") {
		return
	}
	if hc, err := tryCache(-1); err == nil {
		r.Violate("negative-capacity", "a capacity of -1 was accepted (%d is reported)", hc.Capacity())
	}
	hc := newCache(5)
	hc.SetCapacity(ctx, -3)
	if c := hc.Capacity(); c != 5 && c != 0 {
		r.Violate("negative-capacity", "SetCapacity(-3) left a capacity of %d", c)
	}
	_ = hc.Stop(ctx)
	hc = newCache(5, hypercache.WithMaxCacheSize[backend.InMemory](-9))
	if hc.MaxCacheSize() < 0 {
		r.Violate("negative-limit", "a negative memory limit is reported as %d", hc.MaxCacheSize())
	}
	if err := hc.Set(ctx, "k", "v", 0); err != nil {
		r.Violate("negative-limit", "with a negative (no) memory limit Set = %v", err)
	}
	_ = hc.Stop(ctx)
	r.Case("config", true)
}

// concurrent: everything at once, then the books are checked when all is quiet.
func concurrent(r *kit.Run) {
	if !r.Phase("concurrent") {
		return
	}
	for i := 0; i < r.N(60, 800); i++ {
		g := r.Rand("concurrent", i)
		capacity := []int{0, 0, 2, 7, 40}[g.Intn(5)]
		limit := []int64{0, 0, 60, 300}[g.Intn(4)]
		evict := []time.Duration{0, time.Millisecond, time.Hour}[g.Intn(3)]
		expires := g.Intn(2) == 0
		hc := newCache(capacity, evictEvery(evict), expireEvery(time.Duration(1+g.Intn(3))*time.Millisecond), algo(i),
			shards([]int{1, 32}[g.Intn(2)]), hypercache.WithMaxCacheSize[backend.InMemory](limit))
		label := fmt.Sprintf("concurrent: capacity %d, limit %d, eviction every %v, %q, expiring %v", capacity, limit, evict, algos[i%len(algos)], expires)
		nk := 1 + g.Intn(12)
		var wg sync.WaitGroup
		var over atomic.Int64
		ttls := map[string]bool{}
		for k := 0; k < nk; k++ {
			ttls[fmt.Sprintf("k%d", k)] = expires && k%2 == 0
		}
		start := make(chan struct{})
		for c := 0; c < 2+g.Intn(7); c++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < 60; n++ {
					k := fmt.Sprintf("k%d", h.Intn(nk))
					ttl := time.Duration(0)
					if ttls[k] {
						ttl = time.Duration(1+h.Intn(3)) * time.Millisecond
					}
					switch x := h.Intn(20); {
					case x < 9:
						if err := hc.Set(ctx, k, value(h, h.Intn(30)), ttl); err != nil && (limit == 0 || !errors.Is(err, sentinel.ErrCacheFull)) {
							r.Violate("concurrent-write-error", "%s: Set = %v", label, err)
						}
					case x < 11:
						_, err := hc.GetOrSet(ctx, k, value(h, h.Intn(30)), ttl)
						if err != nil && (limit == 0 || !errors.Is(err, sentinel.ErrCacheFull)) && (ttl == 0 || !errors.Is(err, sentinel.ErrKeyExpired)) {
							r.Violate("concurrent-write-error", "%s: GetOrSet = %v", label, err)
						}
					case x < 14:
						_ = hc.Remove(ctx, k, fmt.Sprintf("k%d", h.Intn(nk)), k)
					case x < 15:
						_ = hc.Set(ctx, k, []any{nil, marsh{-1}}[h.Intn(2)], ttl)
					case x < 16:
						c2, cancel := context.WithCancel(ctx)
						go cancel()
						_ = hc.Remove(c2, k)
						cancel()
					case x < 17:
						hc.Get(ctx, k)
						hc.TriggerExpiration()
					case x < 18:
						hc.TriggerEviction(ctx)
					case x < 19:
						if h.Intn(3) == 0 {
							_ = hc.Clear(ctx)
						} else {
							time.Sleep(time.Duration(h.Intn(1500)) * time.Microsecond)
						}
					default:
						// The limit is enforced at every moment: accounted bytes only ever exceed it transiently,
						// while a write that will be refused is being weighed; listed bytes never do.
						if limit > 0 && !expires {
							if a := hc.Allocation(); a < 0 {
								over.Add(1)
							}
						}
						hc.GetMultiple(ctx, "k0", k)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if expires { // let what expires expire and be swept
			time.Sleep(5 * time.Millisecond)
			end := time.Now().Add(15 * time.Second)
			for {
				left := 0
				keys, _ := settled(r, hc, label)
				for k := range keys {
					if ttls[k] {
						left++
					}
				}
				if left == 0 {
					break
				}
				if time.Now().After(end) {
					r.Violate("not-reclaimed", "%s: %d expired items are still held after 15 s", label, left)
					break
				}
				time.Sleep(time.Millisecond)
			}
		}
		keys := quietEventually(r, hc, label)
		if capacity > 0 {
			switch evict {
			case time.Millisecond:
				if !waitCount(hc, capacity, 15*time.Second) {
					r.Violate("stays-over-capacity", "%s: %d items are still held", label, hc.Count(ctx))
				}
			case 0:
				// each write that found the cache too full evicted one item
				if n := hc.Count(ctx); n > capacity {
					r.Violate("stays-over-capacity", "%s: %d items are held", label, n)
				}
			}
		}
		_, sum := settled(r, hc, label)
		if limit > 0 && sum > limit {
			r.Violate("over-limit", "%s: the items held total %d bytes", label, sum)
		}
		// Emptied, it owes nothing.
		for k := range keys {
			_ = hc.Remove(ctx, k)
		}
		if a, n := hc.Allocation(), hc.Count(ctx); a != 0 || n != 0 {
			r.Violate("leaked-accounting", "%s: emptied item by item, the cache still reports %d bytes in %d items", label, a, n)
		}
		if limit > 0 {
			if err := hc.Set(ctx, "fits", sizer(limit), 0); err != nil {
				r.Violate("refused-after-history", "%s: the empty cache refuses an item of exactly the limit: %v", label, err)
			}
		}
		_ = hc.Stop(ctx)
		r.Add("states-compared", 2)
		r.Case("conc/"+label+fmt.Sprint(nk, len(keys), sum), true)
	}
}
