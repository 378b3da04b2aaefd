// C26: listing returns exactly the matching items in the requested order, and the sharded map under it counts, iterates
// and removes exactly.
//
// Oracle: a map of what is stored. Filter chains are judged against the same chain computed independently; under
// concurrency, items present throughout must be listed exactly once and items never stored must not appear.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/resp"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	goredis "github.com/redis/go-redis/v9"
)

var ctx = context.Background()

func main() {
	kit.Main("C26", "a distinct content and filter chain, map history or concurrent schedule", func(r *kit.Run) {
		chains(r)
		throughCache(r)
		churn(r)
		mapHistories(r)
		mapConcurrent(r)
	})
}

// ---------------------------------------------------------------- stores

type store struct {
	kind string
	set  func(*cache.Item) error
	get  func(k string) (*cache.Item, bool)
	rm   func(ks ...string) error
	list func(fs ...backend.IFilter) ([]*cache.Item, error)
	stop func()
	n    func() int
}

func inMemory() *store {
	b, err := backend.NewInMemory(backend.WithCapacity[backend.InMemory](1 << 20))
	if err != nil {
		panic(err)
	}
	return &store{kind: "in-memory", set: func(it *cache.Item) error { return b.Set(ctx, it) },
		get: func(k string) (*cache.Item, bool) { return b.Get(ctx, k) },
		rm:  func(ks ...string) error { return b.Remove(ctx, ks...) },
		list: func(fs ...backend.IFilter) ([]*cache.Item, error) {
			return b.List(ctx, fs...)
		}, stop: func() {}, n: func() int { return b.Count(ctx) }}
}

func distMemory() *store {
	cl := dcl.New(dcl.Conf{N: 1, RF: 1})
	b := cl.Nodes[0].DM
	return &store{kind: "dist-memory", set: func(it *cache.Item) error { return b.Set(ctx, it) },
		get: func(k string) (*cache.Item, bool) { return b.Get(ctx, k) },
		rm:  func(ks ...string) error { return b.Remove(ctx, ks...) },
		list: func(fs ...backend.IFilter) ([]*cache.Item, error) {
			return b.List(ctx, fs...)
		}, stop: cl.Stop, n: func() int { return b.Count(ctx) }}
}

func redisStore() *store {
	s, err := resp.Start(nil)
	if err != nil {
		panic(err)
	}
	c := goredis.NewClient(&goredis.Options{Addr: s.Addr})
	b, err := backend.NewRedis(backend.WithRedisClient(c))
	if err != nil {
		panic(err)
	}
	return &store{kind: "redis", set: func(it *cache.Item) error { return b.Set(ctx, it) },
		get: func(k string) (*cache.Item, bool) { return b.Get(ctx, k) },
		rm:  func(ks ...string) error { return b.Remove(ctx, ks...) },
		list: func(fs ...backend.IFilter) ([]*cache.Item, error) {
			return b.List(ctx, fs...)
		}, stop: func() { c.Close(); s.Close() }, n: func() int { return b.Count(ctx) }}
}

// ---------------------------------------------------------------- filter chains

type step struct {
	kind string // sort, order, keep, custom, badsort, fail
	arg  string
	asc  bool
	fn   func(*cache.Item) bool
	f    backend.IFilter
}

type cut struct{ n int }

func (c cut) ApplyFilter(_ string, items []*cache.Item) ([]*cache.Item, error) {
	return items[:min(c.n, len(items))], nil
}

var errFilter = errors.New("filter refuses")

type refuse struct{}

func (refuse) ApplyFilter(string, []*cache.Item) ([]*cache.Item, error) { return nil, errFilter }

type note struct{ got *string }

func (n note) ApplyFilter(kind string, items []*cache.Item) ([]*cache.Item, error) {
	*n.got = kind
	return items, nil
}

var fields = []string{"Key", "Size", "LastAccess", "AccessCount", "Expiration"}

func cmp(field string, a, b *cache.Item) int {
	three := func(lt, gt bool) int {
		if lt {
			return -1
		} else if gt {
			return 1
		}
		return 0
	}
	switch field {
	case "Key":
		return strings.Compare(a.Key, b.Key)
	case "Size":
		return three(a.Size < b.Size, a.Size > b.Size)
	case "LastAccess":
		return three(a.LastAccess.UnixNano() < b.LastAccess.UnixNano(), a.LastAccess.UnixNano() > b.LastAccess.UnixNano())
	case "AccessCount":
		return three(a.AccessCount < b.AccessCount, a.AccessCount > b.AccessCount)
	case "Expiration":
		return three(a.Expiration < b.Expiration, a.Expiration > b.Expiration)
	}
	panic(field)
}

func chain(g *rand.Rand) []step {
	var out []step
	for i := g.Intn(5); i > 0; i-- {
		switch g.Intn(12) {
		case 0, 1, 2, 3:
			f := fields[g.Intn(len(fields))]
			out = append(out, step{kind: "sort", arg: f, f: backend.WithSortBy(f)})
		case 4, 5, 6:
			asc := g.Intn(2) == 0
			out = append(out, step{kind: "order", asc: asc, f: backend.WithSortOrderAsc(asc)})
		case 7, 8, 9, 10:
			var fn func(*cache.Item) bool
			var d string
			switch g.Intn(6) {
			case 0:
				n := int64(g.Intn(1000))
				fn, d = func(it *cache.Item) bool { return it.Size > n }, fmt.Sprint("size>", n)
			case 1:
				x := fmt.Sprint(g.Intn(10))
				fn, d = func(it *cache.Item) bool { return strings.HasSuffix(it.Key, x) }, "suffix "+x
			case 2:
				fn, d = func(it *cache.Item) bool { return it.Expiration > 0 }, "expires"
			case 3:
				fn, d = func(*cache.Item) bool { return false }, "none"
			case 4:
				fn, d = func(*cache.Item) bool { return true }, "all"
			default:
				m := uint32(g.Intn(4) + 1)
				fn, d = func(it *cache.Item) bool { return it.AccessCount%m == 0 }, fmt.Sprint("count%", m)
			}
			out = append(out, step{kind: "keep", arg: d, fn: fn, f: backend.WithFilterFunc(fn)})
		default:
			switch g.Intn(2) {
			case 0:
				f := []string{"", "key", "Nope", "SIZE", " Key"}[g.Intn(5)]
				out = append(out, step{kind: "badsort", arg: f, f: backend.WithSortBy(f)})
			default:
				out = append(out, step{kind: "fail", f: refuse{}})
			}
		}
	}
	return out
}

func name(ch []step) string {
	var s []string
	for _, c := range ch {
		switch c.kind {
		case "order":
			s = append(s, fmt.Sprintf("asc=%v", c.asc))
		default:
			s = append(s, c.kind+":"+c.arg)
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// judge compares a listing with the chain applied to what is stored.
func judge(r *kit.Run, kind string, ch []step, got []*cache.Item, err error, model map[string]cache.Item, cmpItem func(got, want *cache.Item) string) {
	for _, c := range ch {
		if c.kind == "badsort" || c.kind == "fail" {
			if err == nil {
				r.Violate("error-lost", "%s: List%s returned %d items and no error", kind, name(ch), len(got))
			} else if c.kind == "fail" && !errors.Is(err, errFilter) {
				r.Violate("error-other", "%s: List%s: %v instead of the filter's error", kind, name(ch), err)
			}
			return
		}
	}
	if err != nil {
		r.Violate("error", "%s: List%s: %v", kind, name(ch), err)
		return
	}
	want := map[string]cache.Item{}
	for k, it := range model {
		it := it
		ok := true
		for _, c := range ch {
			if c.kind == "keep" && !c.fn(&it) {
				ok = false
			}
		}
		if ok {
			want[k] = it
		}
	}
	seen := map[string]bool{}
	for _, it := range got {
		if it == nil {
			r.Violate("nil-item", "%s: List%s returned a nil item", kind, name(ch))
			return
		}
		if seen[it.Key] {
			r.Violate("twice", "%s: List%s returned %q twice", kind, name(ch), it.Key)
		}
		seen[it.Key] = true
		w, ok := want[it.Key]
		if !ok {
			_, stored := model[it.Key]
			r.Violate("extra", "%s: List%s returned %q, which does not match (stored: %v)", kind, name(ch), it.Key, stored)
			continue
		}
		if d := cmpItem(it, &w); d != "" {
			r.Violate("content", "%s: List%s: item %q: %s", kind, name(ch), it.Key, d)
		}
	}
	for k := range want {
		if !seen[k] {
			r.Violate("missing", "%s: List%s lacks %q (%d of %d listed)", kind, name(ch), k, len(got), len(want))
			break
		}
	}
	// order: the last sort counts, reversed by every later descending order
	field, dir := "", 1
	for _, c := range ch {
		switch {
		case c.kind == "sort":
			field, dir = c.arg, 1
		case c.kind == "order" && !c.asc:
			dir = -dir
		}
	}
	if field != "" {
		for i := 1; i < len(got); i++ {
			if cmp(field, got[i-1], got[i])*dir > 0 {
				r.Violate("order", "%s: List%s: %q before %q", kind, name(ch), got[i-1].Key, got[i].Key)
				break
			}
		}
		if len(got) > 1 {
			r.Seen("orders", fmt.Sprintf("%s %s %+d", kind, field, dir))
		}
	}
	r.Add("items listed", int64(len(got)))
}

func rkey(g *rand.Rand, n int) string {
	switch g.Intn(5) {
	case 0:
		return strings.Repeat("x", g.Intn(40)+1) + fmt.Sprint(g.Intn(n))
	case 1:
		return fmt.Sprintf("Ключ %d", g.Intn(n))
	case 2:
		return fmt.Sprintf("K%d", g.Intn(n))
	default:
		return fmt.Sprintf("k%d", g.Intn(n))
	}
}

func ritem(g *rand.Rand, k string) *cache.Item {
	it := &cache.Item{Key: k, Value: fmt.Sprint("v", g.Int()), Size: int64(g.Intn(5) * 300), AccessCount: uint32(g.Intn(6)),
		LastAccess: time.Now().Add(-time.Duration(g.Intn(2000)) * time.Millisecond).Round(0)}
	switch g.Intn(4) {
	case 0:
		it.Expiration = time.Hour
	case 1:
		it.Expiration = time.Hour + time.Duration(g.Intn(1e9))
	case 2:
		it.Expiration = 1 << 62
	}
	switch g.Intn(6) {
	case 0:
		it.Size = 1<<40 + int64(g.Intn(2))
	case 1:
		it.AccessCount = ^uint32(0) - uint32(g.Intn(2))
	}
	return it
}

func chains(r *kit.Run) {
	if !r.Phase("chains") {
		return
	}
	n := r.N(240, 6000)
	for i := 0; i < n; i++ {
		g := r.Rand("chains", i)
		var s *store
		switch i % 6 {
		case 0, 1, 2:
			s = inMemory()
		case 3, 4:
			s = distMemory()
		default:
			s = redisStore()
		}
		model := map[string]cache.Item{}
		size := []int{0, 1, 2, 8, 40, 150}[g.Intn(6)]
		for j := 0; j < size; j++ {
			it := ritem(g, rkey(g, 200))
			if s.kind == "redis" && it.Expiration > 1<<60 {
				it.Expiration = 24 * time.Hour
			}
			keep := *it
			if err := s.set(it); err != nil {
				r.Violate("set", "%s: Set(%q): %v", s.kind, it.Key, err)
				continue
			}
			model[keep.Key] = keep
		}
		for j := g.Intn(size + 1); j > 0 && g.Intn(2) == 0; j-- {
			for k := range model {
				if err := s.rm(k); err != nil {
					r.Violate("remove", "%s: Remove: %v", s.kind, err)
				}
				delete(model, k)
				break
			}
		}
		same := func(got, want *cache.Item) string {
			switch {
			case got.Value != want.Value:
				return fmt.Sprintf("value %v, stored %v", got.Value, want.Value)
			case got.Size != want.Size:
				return fmt.Sprintf("size %d, stored %d", got.Size, want.Size)
			case s.kind == "in-memory" && (got.AccessCount != want.AccessCount || !got.LastAccess.Equal(want.LastAccess) || got.Expiration != want.Expiration):
				return fmt.Sprintf("metadata %v %v %v, stored %v %v %v", got.AccessCount, got.LastAccess, got.Expiration, want.AccessCount, want.LastAccess, want.Expiration)
			}
			return ""
		}
		for j := 0; j < 12; j++ {
			ch := chain(g)
			var fs []backend.IFilter
			for _, c := range ch {
				fs = append(fs, c.f)
			}
			got, err := s.list(fs...)
			// the stores may rewrite metadata on Set: judge filters on what a plain listing reports
			base := model
			if s.kind != "in-memory" {
				plain, perr := s.list()
				if perr != nil {
					r.Violate("error", "%s: List(): %v", s.kind, perr)
				}
				base = map[string]cache.Item{}
				for _, it := range plain {
					w, ok := model[it.Key]
					if !ok {
						r.Violate("extra", "%s: List() returned %q, which is not stored", s.kind, it.Key)
						continue
					}
					w.AccessCount, w.LastAccess, w.Expiration = it.AccessCount, it.LastAccess, it.Expiration
					base[it.Key] = w
				}
				if len(base) != len(model) {
					r.Violate("missing", "%s: List() returned %d of %d items", s.kind, len(base), len(model))
				}
			}
			judge(r, s.kind, ch, got, err, base, same)
			// what the caller does to the answer must not reach the store
			if s.kind == "in-memory" && len(got) > 0 && g.Intn(3) == 0 {
				got[0].Value, got[0].Size, got[0].Key = "spoilt", -1, "spoilt"
				got[0].AccessCount = 77
			}
			r.Case(fmt.Sprintf("%s/%d/%s/%d", s.kind, i, name(ch), len(model)), len(model) > 1)
		}
		if c := s.n(); c != len(model) && s.kind != "redis" { // the Redis count is C16's business
			r.Violate("count", "%s: Count %d, stored %d", s.kind, c, len(model))
		}
		s.stop()
	}
}

// throughCache lists through the cache itself, where reads and writes give items their real metadata.
func throughCache(r *kit.Run) {
	if !r.Phase("cache") {
		return
	}
	n := r.N(40, 1000)
	for i := 0; i < n; i++ {
		g := r.Rand("cache", i)
		cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
		if err != nil {
			panic(err)
		}
		cfg.HyperCacheOptions = []hypercache.Option[backend.InMemory]{hypercache.WithEvictionInterval[backend.InMemory](time.Hour), hypercache.WithExpirationInterval[backend.InMemory](time.Hour)}
		cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](100000)}
		hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			panic(err)
		}
		type m struct {
			exp   time.Duration
			reads int
			val   string
			size  int64
			order int // instant of the last use
		}
		model := map[string]*m{}
		clock := 0
		for j := 0; j < 60; j++ {
			k := fmt.Sprint("k", g.Intn(15))
			clock++
			switch g.Intn(5) {
			case 0, 1, 2:
				v := strings.Repeat("v", g.Intn(50)+1)
				exp := time.Duration(g.Intn(3)) * time.Hour
				if err := hc.Set(ctx, k, v, exp); err != nil {
					r.Violate("set", "Set: %v", err)
				}
				model[k] = &m{exp: exp, val: v, order: clock}
			case 3:
				_, ok := hc.Get(ctx, k)
				if x := model[k]; x != nil {
					x.reads++
					x.order = clock
				} else if ok {
					r.Violate("extra", "Get(%s) found a key that is not stored", k)
				}
			default:
				_ = hc.Remove(ctx, k)
				delete(model, k)
			}
		}
		plain, err := hc.List(ctx)
		if err != nil || len(plain) != len(model) {
			r.Violate("missing", "cache: List() = %d items, %v; stored %d", len(plain), err, len(model))
		}
		for _, field := range fields {
			for _, asc := range []bool{true, false} {
				got, err := hc.List(ctx, backend.WithSortBy(field), backend.WithSortOrderAsc(asc), backend.WithFilterFunc(func(it *cache.Item) bool { return model[it.Key] != nil && model[it.Key].exp > 0 }))
				if err != nil {
					r.Violate("error", "cache: List by %s: %v", field, err)
				}
				dir := 1
				if !asc {
					dir = -1
				}
				want := 0
				for _, x := range model {
					if x.exp > 0 {
						want++
					}
				}
				if len(got) != want {
					r.Violate("missing", "cache: List by %s kept %d items, %d match", field, len(got), want)
				}
				for x := 1; x < len(got); x++ {
					a, b := model[got[x-1].Key], model[got[x].Key]
					if a == nil || b == nil {
						continue
					}
					d := 0
					switch field {
					case "Key":
						d = strings.Compare(got[x-1].Key, got[x].Key)
					case "LastAccess":
						d = a.order - b.order
					case "AccessCount":
						d = a.reads - b.reads
					case "Expiration":
						d = int(a.exp - b.exp)
					case "Size":
						d = len(a.val) - len(b.val)
					}
					if d*dir > 0 {
						r.Violate("order", "cache: by %s ascending=%v: %q (used at %d, %d reads, expires %v, %d bytes) before %q (%d, %d, %v, %d)", field, asc,
							got[x-1].Key, a.order, a.reads, a.exp, len(a.val), got[x].Key, b.order, b.reads, b.exp, len(b.val))
					}
				}
				r.Add("cache listings", 1)
			}
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprint("cache/", i), true)
	}
}

// churn lists while items come and go.
func churn(r *kit.Run) {
	if !r.Phase("churn") {
		return
	}
	n := r.N(24, 400)
	for i := 0; i < n; i++ {
		g := r.Rand("churn", i)
		var s *store
		if i%3 == 2 {
			s = distMemory()
		} else {
			s = inMemory()
		}
		stable := map[string]bool{}
		for len(stable) < 60 {
			k := fmt.Sprintf("stable-%d", g.Intn(100000))
			stable[k] = true
			if err := s.set(&cache.Item{Key: k, Value: "v:" + k, Size: int64(g.Intn(100)), LastAccess: time.Now()}); err != nil {
				r.Violate("set", "%s: Set: %v", s.kind, err)
			}
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var writes atomic.Int64
		for w := 0; w < 4; w++ {
			wg.Add(1)
			gw := r.Rand("churn-w", i, w)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					k := fmt.Sprintf("churn-%d-%d", w, gw.Intn(40))
					writes.Add(1)
					switch gw.Intn(4) {
					case 0:
						_ = s.rm(k)
					case 1: // overwrite a stable item: it stays present throughout
						for sk := range stable {
							_ = s.set(&cache.Item{Key: sk, Value: "v:" + sk, Size: int64(gw.Intn(100)), LastAccess: time.Now()})
							break
						}
					case 2:
						for sk := range stable {
							s.get(sk)
							break
						}
					default:
						_ = s.set(&cache.Item{Key: k, Value: "v:" + k, Size: int64(gw.Intn(100)), LastAccess: time.Now()})
					}
				}
			}()
		}
		var lg sync.WaitGroup
		for w := 0; w < 3; w++ {
			lg.Add(1)
			gw := r.Rand("churn-l", i, w)
			go func() {
				defer lg.Done()
				for j := 0; j < 40; j++ {
					field := fields[gw.Intn(len(fields))]
					asc := gw.Intn(2) == 0
					odd := gw.Intn(2) == 0
					fs := []backend.IFilter{backend.WithSortBy(field), backend.WithSortOrderAsc(asc)}
					if odd {
						fs = append(fs, backend.WithFilterFunc(func(it *cache.Item) bool { return strings.HasPrefix(it.Key, "stable") }))
					}
					got, err := s.list(fs...)
					if err != nil {
						r.Violate("error", "%s: List under load: %v", s.kind, err)
						return
					}
					seen, st := map[string]bool{}, 0
					for x, it := range got {
						if seen[it.Key] {
							r.Violate("twice", "%s: %q listed twice under load", s.kind, it.Key)
						}
						seen[it.Key] = true
						if stable[it.Key] {
							st++
						} else if !strings.HasPrefix(it.Key, "churn-") || odd {
							r.Violate("extra", "%s: %q listed under load", s.kind, it.Key)
						}
						if it.Value != "v:"+it.Key {
							r.Violate("content", "%s: item %q listed with value %v", s.kind, it.Key, it.Value)
						}
						d := 1
						if !asc {
							d = -1
						}
						if x > 0 && cmp(field, got[x-1], it)*d > 0 {
							r.Violate("order", "%s: by %s asc=%v: %q before %q under load", s.kind, field, asc, got[x-1].Key, it.Key)
						}
					}
					if st != len(stable) {
						r.Violate("missing", "%s: %d of the %d items present throughout were listed", s.kind, st, len(stable))
					}
					if c := s.n(); c < len(stable) || c > len(stable)+160 {
						r.Violate("count", "%s: Count %d with %d..%d items present", s.kind, c, len(stable), len(stable)+160)
					}
					r.Add("listings under load", 1)
					r.Add("items listed", int64(len(got)))
				}
			}()
		}
		lg.Wait()
		close(stop)
		wg.Wait()
		r.Add("mutations under load", writes.Load())
		s.stop()
		r.Case(fmt.Sprint("churn/", i), writes.Load() > 10)
	}
}

// ---------------------------------------------------------------- the map itself

func mapHistories(r *kit.Run) {
	if !r.Phase("map histories") {
		return
	}
	n := r.N(400, 20000)
	for i := 0; i < n; i++ {
		g := r.Rand("map", i)
		cm := cache.New()
		model := map[string]*cache.Item{}
		space := []int{1, 4, 40, 400}[g.Intn(4)]
		bad := func(sig, f string, a ...any) { r.Violate("map-"+sig, f, a...) }
		for j := 0; j < 150; j++ {
			k := fmt.Sprint("k", g.Intn(space))
			if g.Intn(20) == 0 {
				k = ""
			}
			want, has := model[k]
			op := g.Intn(12)
			switch op {
			case 0, 1, 2, 3:
				it := &cache.Item{Key: k, Value: g.Int()}
				cm.Set(k, it)
				model[k] = it
			case 4:
				if got, ok := cm.Get(k); ok != has || got != want {
					bad("get", "Get(%q) = %v,%v, stored %v,%v", k, got, ok, want, has)
				}
			case 5:
				got, ok := cm.GetCopy(k)
				if ok != has || (has && (got == want || *got != *want)) || (!has && got != nil) {
					bad("copy", "GetCopy(%q) = %v,%v, stored %v,%v", k, got, ok, want, has)
				}
			case 6:
				before := cache.Item{}
				if has {
					before = *want
				}
				t0 := time.Now()
				ok := cm.Touch(k)
				if ok != has {
					bad("touch", "Touch(%q) = %v, stored %v", k, ok, has)
				}
				if has && (want.AccessCount != before.AccessCount+1 || want.LastAccess.Before(t0) || want.Value != before.Value) {
					bad("touch", "Touch(%q): access count %d→%d, last access %v", k, before.AccessCount, want.AccessCount, want.LastAccess)
				}
			case 7:
				if cm.Has(k) != has {
					bad("has", "Has(%q) = %v, stored %v", k, !has, has)
				}
			case 8:
				got, ok := cm.Pop(k)
				if ok != has || (has && got != want) {
					bad("pop", "Pop(%q) = %v,%v, stored %v,%v", k, got, ok, want, has)
				}
				delete(model, k)
			case 9:
				cm.Remove(k)
				delete(model, k)
			case 10:
				if g.Intn(15) == 0 {
					cm.Clear()
					model = map[string]*cache.Item{}
				}
			default:
				limit := -1
				if g.Intn(3) == 0 {
					limit = g.Intn(len(model) + 1)
				}
				seen, calls := map[string]bool{}, 0
				for kk, it := range cm.All() {
					if calls == limit {
						break
					}
					calls++
					if seen[kk] || model[kk] != it || it == nil {
						bad("all", "All yields %q (%v) twice or with the wrong item", kk, it)
					}
					seen[kk] = true
				}
				if limit < 0 && len(seen) != len(model) {
					bad("all", "All yields %d of %d items", len(seen), len(model))
				}
				// a loop left early releases its lock: this write would hang otherwise
				cm.Set(k, &cache.Item{Key: k, Value: 1})
				model[k], _ = cm.Get(k)
			}
			if c := cm.Count(); c != len(model) {
				bad("count", "Count %d, stored %d, after operation %d on %q", c, len(model), op, k)
				return
			}
			r.Add("map operations", 1)
		}
		r.Case(fmt.Sprint("map/", i), true)
	}
}

// mapConcurrent: removal hands an item to exactly one caller, counts are exact at rest and within bounds before.
func mapConcurrent(r *kit.Run) {
	if !r.Phase("map concurrent") {
		return
	}
	n := r.N(60, 1500)
	for i := 0; i < n; i++ {
		cm := cache.New()
		var wg sync.WaitGroup
		keys := 24
		var puts, pops sync.Map
		var put, popped atomic.Int64
		stop := make(chan struct{})
		for w := 0; w < 6; w++ {
			wg.Add(1)
			g := r.Rand("mapc", i, w)
			go func() {
				defer wg.Done()
				for j := 0; j < 200; j++ {
					k := fmt.Sprint("k", g.Intn(keys))
					switch g.Intn(6) {
					case 0, 1:
						it := &cache.Item{Key: k, Value: w*1000000 + j}
						puts.Store(it, true)
						cm.Set(k, it)
						put.Add(1)
					case 2, 3:
						if it, ok := cm.Pop(k); ok {
							if _, dup := pops.LoadOrStore(it, true); dup {
								r.Violate("map-pop-twice", "Pop(%s) handed out one item twice", k)
							}
							if _, known := puts.Load(it); !known || it.Key != k {
								r.Violate("map-pop-foreign", "Pop(%s) handed out an item nobody stored there", k)
							}
							popped.Add(1)
						}
					case 4:
						if it, ok := cm.GetCopy(k); ok && it.Key != k {
							r.Violate("map-foreign", "GetCopy(%s) is an item of %s", k, it.Key)
						}
						cm.Touch(k)
					default:
						if j%50 == 0 && i%4 == 0 {
							cm.Clear()
						} else {
							cm.Remove(k)
						}
					}
				}
			}()
		}
		var rd sync.WaitGroup
		rd.Add(1)
		go func() {
			defer rd.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if c := cm.Count(); c < 0 || c > keys {
					r.Violate("map-count-bounds", "Count %d with at most %d keys", c, keys)
				}
				seen := map[string]bool{}
				for k, it := range cm.All() {
					if seen[k] || it.Key != k {
						r.Violate("map-all", "All yields %q twice or with a foreign item", k)
					}
					seen[k] = true
				}
			}
		}()
		wg.Wait()
		close(stop)
		rd.Wait()
		var left []string
		for k := range cm.All() {
			left = append(left, k)
		}
		sort.Strings(left)
		if cm.Count() != len(left) {
			r.Violate("map-count", "at rest Count is %d, the map holds %d", cm.Count(), len(left))
		}
		for k := 0; k < keys; k++ {
			_, ok := cm.Get(fmt.Sprint("k", k))
			x := sort.SearchStrings(left, fmt.Sprint("k", k))
			if ok != (x < len(left) && left[x] == fmt.Sprint("k", k)) {
				r.Violate("map-all", "Get and All disagree about k%d", k)
			}
		}
		r.Add("map puts", put.Load())
		r.Add("map pops", popped.Load())
		r.Case(fmt.Sprint("mapc/", i), popped.Load() > 0)
	}
}
