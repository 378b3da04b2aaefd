// C21: expired items are never served and live items are never expired.
//
// Oracle: every key has one owner, who knows between which two instants the item was last touched. A read that
// starts more than the lifetime after the latest possible touch has to miss; a read that ends less than the lifetime
// after the earliest possible touch has to hit with the value stored last. Sweeps, triggers and thousands of other
// expiring keys run all the while.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

type opt = hypercache.Option[backend.InMemory]

// cache is what the phases need of a HyperCache, whatever the backend.
type cache interface {
	Get(ctx context.Context, key string) (any, bool)
	Set(ctx context.Context, key string, value any, ttl time.Duration) error
	Remove(ctx context.Context, keys ...string) error
	Count(ctx context.Context) int
	TriggerExpiration()
	Stop(ctx context.Context) error
}

func newCache(capacity int, opts ...opt) *hypercache.HyperCache[backend.InMemory] {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = opts
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

func newDist(interval time.Duration) *hypercache.HyperCache[backend.DistMemory] {
	cfg, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{
		hypercache.WithExpirationInterval[backend.DistMemory](interval),
		hypercache.WithEvictionInterval[backend.DistMemory](0),
	}
	cfg.DistMemoryOptions = []backend.DistMemoryOption{backend.WithDistReplication(1), backend.WithDistNode("n1", "")}
	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

func interval(d time.Duration) opt { return hypercache.WithExpirationInterval[backend.InMemory](d) }
func noEvict() opt                 { return hypercache.WithEvictionInterval[backend.InMemory](time.Hour) }

func main() {
	kit.Main("C21", "a read decided by its timing (certainly live or certainly expired)", func(r *kit.Run) {
		timing(r)
		distTiming(r)
		replace(r)
		storm(r)
		reclaim(r)
		beside(r)
		forever(r)
	})
}

// owned is the state of one key as its only writer and reader knows it.
type owned struct {
	key    string
	val    any  // nil = certainly absent or expired
	last   any  // what was stored last, still there or not
	gone   bool // removed by the owner, or never stored
	ttl    time.Duration
	lo, hi time.Time // the last touch happened between these
}

func (o *owned) mustLive(end time.Time) bool {
	return o.val != nil && (o.ttl == 0 || end.Sub(o.lo) < o.ttl)
}

func (o *owned) mustMiss(start time.Time) bool {
	return o.val == nil || (o.ttl > 0 && start.Sub(o.hi) > o.ttl)
}

// touched notes a read that hit. Unless the item was certainly live throughout it may have expired, and been swept,
// after the read had looked at it and before it touched it: then nothing was prolonged.
func (o *owned) touched(live bool, start, end time.Time) {
	if live {
		o.lo = start
	}
	o.hi = end
}

// judge checks one read of the key and updates the state.
func (o *owned) judge(r *kit.Run, how string, v any, ok bool, start, end time.Time, slides bool) {
	live, miss := o.mustLive(end), o.mustMiss(start)
	if live {
		r.Add("certainly-live-reads", 1)
	}
	if miss {
		r.Add("certainly-expired-reads", 1)
	}
	switch {
	case ok && miss:
		if o.val == nil {
			r.Violate("ghost", "%s(%q) returned %v although the key was removed or expired before", how, o.key, v)
		} else {
			r.Violate("served-expired", "%s(%q) returned %v %v after its last touch, its lifetime is %v", how, o.key, v, start.Sub(o.hi), o.ttl)
		}
	case !ok && live:
		r.Violate("live-hidden", "%s(%q) missed at most %v after its last touch, its lifetime is %v", how, o.key, end.Sub(o.lo), o.ttl)
		o.val = nil
	case ok && v != o.val:
		r.Violate("wrong-value", "%s(%q) returned %v, the value stored last is %v", how, o.key, v, o.val)
	}
	if ok && slides {
		o.touched(live, start, end)
	}
	if !ok {
		o.val = nil
	}
}

var ids atomic.Int64

// fresh is what the owner stores next: often what it stored last, so that only the lifetime is new.
func (o *owned) fresh(g *rand.Rand) any {
	switch g.Intn(6) {
	case 0, 1:
		if o.last != nil {
			return o.last
		}
	case 2:
		return []string{"", "x", "same"}[g.Intn(3)]
	case 3:
		return fmt.Sprint("v", ids.Add(1))
	}
	return int(ids.Add(1))
}

// exercise runs one owner over its keys until the deadline.
func exercise(r *kit.Run, hc *hypercache.HyperCache[backend.InMemory], g *rand.Rand, name string, keys int, until time.Time, maxTTL time.Duration) {
	ctx := context.Background()
	os := make([]*owned, keys)
	for i := range os {
		os[i] = &owned{key: fmt.Sprintf("%s-%d", name, i), gone: true}
	}
	for n := 0; time.Now().Before(until); n++ {
		o := os[g.Intn(keys)]
		switch x := g.Intn(12); {
		case x < 4 || n < keys:
			v := o.fresh(g)
			ttl := time.Duration(0)
			if g.Intn(5) > 0 {
				ttl = time.Duration(1 + g.Int63n(int64(maxTTL)))
			}
			lo := time.Now()
			err := hc.Set(ctx, o.key, v, ttl)
			if err != nil {
				r.Violate("set-error", "Set(%q) = %v", o.key, err)
				continue
			}
			o.val, o.last, o.gone, o.ttl, o.lo, o.hi = v, v, false, ttl, lo, time.Now()
		case x < 6:
			s := time.Now()
			v, ok := hc.Get(ctx, o.key)
			o.judge(r, "Get", v, ok, s, time.Now(), true)
		case x < 8:
			s := time.Now()
			it, ok := hc.GetWithInfo(ctx, o.key)
			e := time.Now()
			var v any
			if ok {
				v = it.Value
				if it.Expiration != o.ttl && o.val != nil {
					r.Violate("lifetime-altered", "GetWithInfo(%q) reports a lifetime of %v, it was set to %v", o.key, it.Expiration, o.ttl)
				}
			}
			o.judge(r, "GetWithInfo", v, ok, s, e, true)
		case x < 9:
			p := os[g.Intn(keys)]
			s := time.Now()
			res, failed := hc.GetMultiple(ctx, o.key, p.key)
			e := time.Now()
			for _, q := range []*owned{o, p} {
				v, ok := res[q.key]
				if !ok && !errors.Is(failed[q.key], sentinel.ErrKeyNotFound) {
					r.Violate("multiple-error", "GetMultiple reports %v for %q", failed[q.key], q.key)
				}
				q.judge(r, "GetMultiple", v, ok, s, e, true)
				if p == o {
					break
				}
			}
		case x < 10:
			v := int(ids.Add(1))
			ttl := time.Duration(1 + g.Int63n(int64(maxTTL)))
			s := time.Now()
			got, err := hc.GetOrSet(ctx, o.key, v, ttl)
			e := time.Now()
			live, miss := o.mustLive(e), o.mustMiss(s)
			switch {
			case errors.Is(err, sentinel.ErrKeyExpired):
				if o.gone {
					r.Violate("ghost", "GetOrSet(%q) says expired, the key was removed", o.key)
				}
				if live {
					r.Violate("live-hidden", "GetOrSet(%q) says expired at most %v after its last touch, its lifetime is %v", o.key, e.Sub(o.lo), o.ttl)
				}
				o.val = nil
			case err != nil:
				r.Violate("getorset-error", "GetOrSet(%q) = %v", o.key, err)
			case got == any(v):
				if live {
					r.Violate("live-hidden", "GetOrSet(%q) replaced an item at most %v after its last touch, its lifetime is %v", o.key, e.Sub(o.lo), o.ttl)
				}
				o.val, o.last, o.gone, o.ttl, o.lo, o.hi = v, v, false, ttl, s, e
			default:
				if miss {
					r.Violate("served-expired", "GetOrSet(%q) returned %v %v after its last touch, its lifetime is %v", o.key, got, s.Sub(o.hi), o.ttl)
				} else if got != o.val {
					r.Violate("wrong-value", "GetOrSet(%q) returned %v, stored last is %v", o.key, got, o.val)
				}
				o.touched(live, s, e)
			}
		case x < 11:
			if err := hc.Remove(ctx, o.key); err != nil {
				r.Violate("remove-error", "Remove(%q) = %v", o.key, err)
			}
			o.val, o.gone = nil, true
		default:
			if g.Intn(2) == 0 {
				time.Sleep(time.Duration(g.Int63n(int64(maxTTL))))
			} else {
				hc.TriggerExpiration()
			}
		}
		r.Add("operations", 1)
	}
}

func timing(r *kit.Run) {
	if !r.Phase("timing") {
		return
	}
	for i := 0; i < r.N(8, 120); i++ {
		g := r.Rand("timing", i)
		hc := newCache(0, noEvict(), interval([]time.Duration{0, time.Millisecond, 3 * time.Millisecond, time.Hour}[i%4]),
			hypercache.WithExpirationTriggerDebounce[backend.InMemory](time.Duration(g.Intn(2))*2*time.Millisecond))
		until := time.Now().Add(time.Duration(r.N(400, 1500)) * time.Millisecond)
		maxTTL := []time.Duration{2 * time.Millisecond, 10 * time.Millisecond, 40 * time.Millisecond}[g.Intn(3)]
		var wg sync.WaitGroup
		for w := 0; w < 6; w++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() { defer wg.Done(); exercise(r, hc, h, fmt.Sprint("w", w), 1+h.Intn(12), until, maxTTL) }()
		}
		wg.Add(1)
		go func() { // other keys, expiring by the thousand
			defer wg.Done()
			ctx := context.Background()
			for n := 0; time.Now().Before(until); n++ {
				for j := 0; j < 200; j++ {
					_ = hc.Set(ctx, fmt.Sprint("noise", (n*200+j)%3000), j, time.Duration(1+j%1500)*time.Microsecond)
				}
				hc.TriggerExpiration()
				time.Sleep(200 * time.Microsecond)
			}
		}()
		wg.Wait()
		_ = hc.Stop(context.Background())
		r.Case(fmt.Sprintf("timing/%d/%d", i, ids.Load()), true)
	}
	r.Sample("timing", "single-owner keys with lifetimes of microseconds to 40 ms, read, re-set, get-or-set and removed while sweeps run")
}

// distTiming: the same promise with the distributed backend on one node.
func distTiming(r *kit.Run) {
	if !r.Phase("dist") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(3, 30); i++ {
		g := r.Rand("dist", i)
		hc := newDist([]time.Duration{time.Millisecond, 5 * time.Millisecond, time.Hour}[i%3])
		until := time.Now().Add(time.Duration(r.N(400, 1500)) * time.Millisecond)
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				os := make([]*owned, 6)
				for j := range os {
					os[j] = &owned{key: fmt.Sprintf("d%d-%d", w, j)}
				}
				for time.Now().Before(until) {
					o := os[h.Intn(len(os))]
					switch h.Intn(6) {
					case 0, 1:
						v, ttl := o.fresh(h), time.Duration(0)
						if h.Intn(4) > 0 {
							ttl = time.Duration(2+h.Intn(20)) * time.Millisecond
						}
						lo := time.Now()
						if err := hc.Set(ctx, o.key, v, ttl); err != nil {
							r.Violate("set-error", "dist: Set(%q) = %v", o.key, err)
							continue
						}
						o.val, o.last, o.gone, o.ttl, o.lo, o.hi = v, v, false, ttl, lo, time.Now()
					case 2, 3:
						s := time.Now()
						v, ok := hc.Get(ctx, o.key)
						e := time.Now()
						o.judge(r, "dist Get", v, ok, s, e, false)
						if ok { // a read may extend the life on this backend, it need not
							o.hi = e
						}
					case 4:
						time.Sleep(time.Duration(h.Intn(8)) * time.Millisecond)
					default:
						hc.TriggerExpiration()
					}
					r.Add("operations", 1)
				}
			}()
		}
		wg.Wait()
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprint("dist", i), true)
	}
}

// replace: thousands of expired items are replaced by live ones while the sweep that listed them is running.
func replace(r *kit.Run) {
	if !r.Phase("replace") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(30, 400); i++ {
		g := r.Rand("replace", i)
		hc := newCache(0, noEvict(), interval([]time.Duration{time.Hour, time.Millisecond}[i%2]))
		n := 500 + g.Intn(2500)
		key := func(j int) string { return fmt.Sprint("k", j) }
		for j := 0; j < n; j++ {
			_ = hc.Set(ctx, key(j), -1-j, time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		var wg sync.WaitGroup
		var done atomic.Bool
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !done.Load() {
				hc.TriggerExpiration()
				time.Sleep(20 * time.Microsecond)
			}
		}()
		var ww sync.WaitGroup
		for w := 0; w < 4; w++ {
			ww.Add(1)
			go func() {
				defer ww.Done()
				for j := w; j < n; j += 4 {
					ttl := time.Duration(0)
					if j%2 == 0 {
						ttl = time.Hour
					}
					var err error
					for tries := 0; ; tries++ {
						if j%3 == 0 {
							_, err = hc.GetOrSet(ctx, key(j), j, ttl)
							if errors.Is(err, sentinel.ErrKeyExpired) && tries < 3 {
								continue
							}
							if errors.Is(err, sentinel.ErrKeyExpired) {
								err = hc.Set(ctx, key(j), j, ttl)
							}
						} else {
							err = hc.Set(ctx, key(j), j, ttl)
						}
						break
					}
					if err != nil {
						r.Violate("set-error", "Set(%q) = %v", key(j), err)
					}
					if v, ok := hc.Get(ctx, key(j)); !ok || v != any(j) {
						r.Violate("replaced-item-expired", "%q was set to %d with a lifetime of %v and reads %v,%v right afterwards, during a sweep", key(j), j, ttl, v, ok)
					}
				}
			}()
		}
		ww.Wait()
		done.Store(true)
		wg.Wait()
		hc.TriggerExpiration()
		time.Sleep(3 * time.Millisecond)
		lost := 0
		for j := 0; j < n; j++ {
			if v, ok := hc.Get(ctx, key(j)); !ok || v != any(j) {
				lost++
				if lost == 1 {
					r.Violate("replaced-item-expired", "%q was set to %d while a sweep ran and reads %v,%v once it is over", key(j), j, v, ok)
				}
			}
		}
		_ = hc.Stop(ctx)
		r.Add("replaced-while-sweeping", int64(n))
		r.Case(fmt.Sprintf("replace/%d/%d", i, n), true)
	}
}

// storm: triggers from everywhere; afterwards an expired item must still be reclaimed by a trigger.
func storm(r *kit.Run) {
	if !r.Phase("storm") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(25, 400); i++ {
		g := r.Rand("storm", i)
		hc := newCache(0, noEvict(), interval(0), hypercache.WithExpirationTriggerBuffer[backend.InMemory](1+g.Intn(4)))
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 150; n++ {
					hc.TriggerExpiration()
					if n%5 == 0 {
						_ = hc.Set(ctx, fmt.Sprint("s", w, n), n, time.Microsecond)
						_, _ = hc.Get(ctx, fmt.Sprint("s", w, n))
					}
				}
			}()
		}
		wg.Wait()
		_ = hc.Set(ctx, "last", 1, time.Millisecond)
		time.Sleep(2 * time.Millisecond)
		reclaimed(r, hc, 0, "after a storm of triggers", func() { hc.TriggerExpiration() })
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprint("storm", i), true)
	}
}

// reclaimed waits for the cache to hold exactly want items; poke runs now and then.
func reclaimed(r *kit.Run, hc cache, want int, when string, poke func()) {
	deadline := time.Now().Add(15 * time.Second)
	for {
		if poke != nil {
			poke()
		}
		c := hc.Count(context.Background())
		if c == want {
			return
		}
		if c < want {
			r.Violate("live-reclaimed", "%s: %d items are left, %d of them live forever", when, c, want)
			return
		}
		if time.Now().After(deadline) {
			r.Violate("never-reclaimed", "%s: %d items are still held 15 s after all but %d expired", when, c, want)
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// reclaim: expired items go away without being read, by the interval alone or by one trigger or one read.
func reclaim(r *kit.Run) {
	if !r.Phase("reclaim") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(12, 120); i++ {
		g := r.Rand("reclaim", i)
		mode := i % 4
		var hc cache
		switch mode {
		case 0:
			hc = newCache(0, noEvict(), interval(time.Duration(1+g.Intn(10))*time.Millisecond))
		case 1, 2:
			hc = newCache(0, noEvict(), interval(time.Hour))
		case 3:
			hc = newDist(5 * time.Millisecond)
		}
		n, keep := 50+g.Intn(400), g.Intn(50)
		for j := 0; j < n; j++ {
			if err := hc.Set(ctx, fmt.Sprint("k", j), j, time.Duration(1+g.Intn(5))*time.Millisecond); err != nil {
				r.Violate("set-error", "Set = %v", err)
			}
		}
		for j := 0; j < keep; j++ {
			ttl := time.Duration(0)
			if j%2 == 0 {
				ttl = time.Hour
			}
			_ = hc.Set(ctx, fmt.Sprint("keep", j), j, ttl)
		}
		time.Sleep(8 * time.Millisecond)
		switch mode {
		case 0, 3:
			reclaimed(r, hc, keep, fmt.Sprintf("mode %d, by the interval alone", mode), nil)
		case 1: // one trigger
			hc.TriggerExpiration()
			reclaimed(r, hc, keep, "by one trigger", nil)
		case 2: // one read of one expired item
			if _, ok := hc.Get(ctx, "k0"); ok {
				r.Violate("served-expired", "Get(k0) hit 8 ms after a lifetime of at most 5 ms")
			}
			reclaimed(r, hc, keep, "by reading one expired item", nil)
		}
		for j := 0; j < keep; j++ {
			if v, ok := hc.Get(ctx, fmt.Sprint("keep", j)); !ok || v != any(j) {
				r.Violate("live-hidden", "mode %d: an item of unlimited or one-hour lifetime reads %v,%v", mode, v, ok)
			}
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("reclaim/%d/%d/%d", mode, n, keep), true)
	}
}

// beside: what expired is reclaimed however many live items, with lifetimes shorter and longer than its own, are
// being renewed beside it.
func beside(r *kit.Run) {
	if !r.Phase("beside") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(4, 24); i++ {
		g := r.Rand("beside", i)
		var hc cache
		if i%4 == 3 {
			hc = newDist(5 * time.Millisecond)
		} else {
			hc = newCache(0, noEvict(), interval([]time.Duration{5 * time.Millisecond, 0, time.Hour}[i%3]))
		}
		dead, live := 1+g.Intn(60), 1+g.Intn(20)
		for j := 0; j < dead; j++ {
			_ = hc.Set(ctx, fmt.Sprint("dead", j), j, time.Duration(350+g.Intn(100))*time.Millisecond)
		}
		renew := func() {
			for j := 0; j < live; j++ {
				ttl := []time.Duration{300 * time.Millisecond, 0, 320 * time.Millisecond, time.Hour}[j%4]
				if _, ok := hc.Get(ctx, fmt.Sprint("live", j)); !ok || j%2 == 0 {
					_ = hc.Set(ctx, fmt.Sprint("live", j), j, ttl)
				}
			}
		}
		for start := time.Now(); time.Since(start) < 460*time.Millisecond; time.Sleep(5 * time.Millisecond) {
			renew()
		}
		for deadline := time.Now().Add(6 * time.Second); ; time.Sleep(5 * time.Millisecond) {
			renew()
			hc.TriggerExpiration()
			c := hc.Count(ctx)
			if c <= live {
				break
			}
			if time.Now().After(deadline) {
				r.Violate("never-reclaimed", "%d items are still held 6 s after all but %d expired, which are being renewed", c, live)
				break
			}
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("beside/%d/%d/%d", i, dead, live), true)
	}
}

// forever: huge and odd lifetimes behave; lifetimes that would overflow are not taken for expired ones.
func forever(r *kit.Run) {
	if !r.Phase("forever") {
		return
	}
	ctx := context.Background()
	for i, ttl := range []time.Duration{0, 1<<63 - 1, 1 << 62, 100 * 365 * 24 * time.Hour, 290 * 365 * 24 * time.Hour, time.Hour} {
		hc := newCache(0, noEvict(), interval(time.Millisecond))
		if err := hc.Set(ctx, "k", i, ttl); err != nil {
			r.Violate("set-error", "Set with lifetime %v = %v", ttl, err)
		}
		for n := 0; n < 5; n++ {
			hc.TriggerExpiration()
			time.Sleep(3 * time.Millisecond)
			if v, ok := hc.Get(ctx, "k"); !ok || v != any(i) {
				r.Violate("live-hidden", "an item with a lifetime of %v reads %v,%v after %d ms", ttl, v, ok, n*3)
			}
		}
		it, ok := hc.GetWithInfo(ctx, "k")
		if !ok || it.Expiration != ttl {
			r.Violate("lifetime-altered", "GetWithInfo reports %+v for a lifetime of %v", it, ttl)
		}
		if err := hc.Set(ctx, "neg", 1, -time.Duration(1+i)); err == nil {
			r.Violate("negative-lifetime", "a negative lifetime was accepted")
		}
		if _, ok := hc.Get(ctx, "neg"); ok {
			r.Violate("negative-lifetime", "an item refused for its negative lifetime is served")
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprint("forever", ttl), true)
	}
}
