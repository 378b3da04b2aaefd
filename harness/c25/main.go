// C25: typed and service views return what was stored and change nothing else.
//
// Oracle: below every middleware stack sits a recording service whose answers are scripted per call, so each call
// through the stack can be compared with the one call that must have arrived and the one answer that must come back.
// Counters, histograms and spans are compared with the ledger of calls. Typed views are compared with a map of values.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/telemetry/attrs"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/middleware"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

func main() {
	kit.Main("C25", "a distinct middleware stack and call sequence, or typed-view history", func(r *kit.Run) {
		stacks(r)
		concurrent(r)
		realCache(r)
		typedHistories(r)
		typedConcurrent(r)
	})
}

// ---------------------------------------------------------------- recording service

type callID struct{}

// call is one scripted call: what the caller passes and what the service below must answer.
type call struct {
	method string
	key    string
	keys   []string
	value  any
	exp    time.Duration
	filter []backend.IFilter
	ctx    context.Context

	out     any
	ok      bool
	err     error
	item    *cache.Item
	items   []*cache.Item
	hits    map[string]any
	failed  map[string]error
	n       int
	st      stats.Stats
	panics  any
	arrived atomic.Int32
	bad     atomic.Pointer[string]
	delay   bool
	spanned bool // a tracing layer above must have put a span in the context
}

type fake struct {
	cur atomic.Pointer[call] // for methods without context
}

func (f *fake) in(ctx context.Context, method string) *call {
	var c *call
	if ctx != nil {
		c, _ = ctx.Value(callID{}).(*call)
	}
	if c == nil {
		c = f.cur.Load()
	}
	if c == nil {
		panic("no call")
	}
	c.arrived.Add(1)
	if c.method != method {
		c.fail("arrived as %s", method)
	}
	if ctx != nil {
		if _, ok := ctx.Value(callID{}).(*call); !ok {
			c.fail("the values of the caller's context were lost")
		}
		d1, ok1 := c.ctx.Deadline()
		d2, ok2 := ctx.Deadline()
		if ok1 != ok2 || !d1.Equal(d2) {
			c.fail("deadline %v/%v became %v/%v", d1, ok1, d2, ok2)
		}
		if (c.ctx.Err() == nil) != (ctx.Err() == nil) {
			c.fail("context error %v became %v", c.ctx.Err(), ctx.Err())
		}
		if c.spanned && !trace.SpanContextFromContext(ctx).IsValid() {
			c.fail("the span is not in the context of the call it covers")
		}
	}
	if c.delay {
		time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
	}
	return c
}

func (c *call) fail(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.bad.CompareAndSwap(nil, &s)
}

func (c *call) done() {
	if c.panics != nil {
		panic(c.panics)
	}
}

func (c *call) wantKey(k string) {
	if k != c.key {
		c.fail("key %q arrived as %q", c.key, k)
	}
}

func (c *call) wantKeys(ks []string) {
	if len(ks) != len(c.keys) || (len(ks) > 0 && !reflect.DeepEqual(ks, c.keys)) {
		c.fail("keys %q arrived as %q", c.keys, ks)
	}
}

func (c *call) wantVal(v any, exp time.Duration) {
	if !same(v, c.value) {
		c.fail("value %v arrived as %v", c.value, v)
	}
	if exp != c.exp {
		c.fail("expiration %v arrived as %v", c.exp, exp)
	}
}

// same is identity for pointers, maps and slices and equality for the rest.
func same(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Map:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && va.Pointer() == vb.Pointer()
	default:
		return a == b
	}
}

func (f *fake) Get(ctx context.Context, key string) (any, bool) {
	c := f.in(ctx, "Get")
	c.wantKey(key)
	c.done()
	return c.out, c.ok
}

func (f *fake) Set(ctx context.Context, key string, value any, exp time.Duration) error {
	c := f.in(ctx, "Set")
	c.wantKey(key)
	c.wantVal(value, exp)
	c.done()
	return c.err
}

func (f *fake) GetOrSet(ctx context.Context, key string, value any, exp time.Duration) (any, error) {
	c := f.in(ctx, "GetOrSet")
	c.wantKey(key)
	c.wantVal(value, exp)
	c.done()
	return c.out, c.err
}

func (f *fake) GetWithInfo(ctx context.Context, key string) (*cache.Item, bool) {
	c := f.in(ctx, "GetWithInfo")
	c.wantKey(key)
	c.done()
	return c.item, c.ok
}

func (f *fake) GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error) {
	c := f.in(ctx, "GetMultiple")
	c.wantKeys(keys)
	c.done()
	return c.hits, c.failed
}

func (f *fake) List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error) {
	c := f.in(ctx, "List")
	if len(filters) != len(c.filter) {
		c.fail("%d filters arrived as %d", len(c.filter), len(filters))
	} else {
		for i := range filters {
			if filters[i] != c.filter[i] {
				c.fail("filter %d was replaced", i)
			}
		}
	}
	c.done()
	return c.items, c.err
}

func (f *fake) Remove(ctx context.Context, keys ...string) error {
	c := f.in(ctx, "Remove")
	c.wantKeys(keys)
	c.done()
	return c.err
}

func (f *fake) Clear(ctx context.Context) error {
	c := f.in(ctx, "Clear")
	c.done()
	return c.err
}

func (f *fake) Capacity() int     { c := f.in(nil, "Capacity"); c.done(); return c.n }
func (f *fake) Allocation() int64 { c := f.in(nil, "Allocation"); c.done(); return int64(c.n) }
func (f *fake) Count(ctx context.Context) int {
	c := f.in(ctx, "Count")
	c.done()
	return c.n
}

func (f *fake) TriggerEviction(ctx context.Context) { f.in(ctx, "TriggerEviction").done() }
func (f *fake) Stop(ctx context.Context) error {
	c := f.in(ctx, "Stop")
	c.done()
	return c.err
}
func (f *fake) GetStats() stats.Stats { c := f.in(nil, "GetStats"); c.done(); return c.st }

// ---------------------------------------------------------------- scripted calls

var withCtx = []string{"Get", "Set", "GetOrSet", "GetWithInfo", "GetMultiple", "List", "Remove", "Clear", "Count", "TriggerEviction", "Stop"}
var noCtx = []string{"Capacity", "Allocation", "GetStats"}

type nopFilter struct{ id int }

func (nopFilter) ApplyFilter(_ string, items []*cache.Item) ([]*cache.Item, error) { return items, nil }

func rkey(g *rand.Rand) string {
	switch g.Intn(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("k", g.Intn(300))
	case 2:
		return "%s%d%!"
	case 3:
		return "ключ\x00" + fmt.Sprint(g.Intn(9))
	default:
		return fmt.Sprintf("key-%d", g.Intn(1000))
	}
}

type point struct{ X, Y int }

func rval(g *rand.Rand) any {
	switch g.Intn(8) {
	case 0:
		return nil
	case 1:
		return g.Intn(1e6)
	case 2:
		return []byte{byte(g.Intn(256)), 2}
	case 3:
		return &point{g.Int(), g.Int()}
	case 4:
		return point{g.Int(), 3}
	case 5:
		return map[string]int{"a": g.Int()}
	case 6:
		return errors.New("a value")
	default:
		return fmt.Sprintf("v%d", g.Int())
	}
}

func rerr(g *rand.Rand) error {
	switch g.Intn(5) {
	case 0:
		return fmt.Errorf("wrapped %d: %w", g.Int(), sentinel.ErrCacheFull)
	case 1:
		return sentinel.ErrKeyNotFound
	case 2:
		return context.Canceled
	default:
		return nil
	}
}

func newCall(g *rand.Rand, method string) *call {
	c := &call{method: method, key: rkey(g), value: rval(g), out: rval(g), ok: g.Intn(2) == 0, err: rerr(g), n: g.Intn(1e6) - 10}
	switch g.Intn(4) {
	case 0:
		c.exp = 0
	case 1:
		c.exp = -time.Duration(g.Intn(1e9))
	case 2:
		c.exp = time.Duration(g.Int63())
	default:
		c.exp = time.Duration(g.Intn(1e9))
	}
	if g.Intn(5) > 0 {
		c.keys = []string{}
		for i := g.Intn(6); i > 0; i-- {
			c.keys = append(c.keys, rkey(g))
		}
		if len(c.keys) > 1 && g.Intn(3) == 0 {
			c.keys[1] = c.keys[0]
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		c.filter = append(c.filter, &nopFilter{i})
	}
	if g.Intn(4) > 0 {
		c.item = &cache.Item{Key: c.key, Version: uint64(g.Int())}
	}
	if g.Intn(4) > 0 {
		c.hits, c.failed = map[string]any{}, map[string]error{}
		for i := g.Intn(5); i > 0; i-- {
			c.hits[fmt.Sprint("h", i)] = rval(g)
		}
		for i := g.Intn(5); i > 0; i-- {
			c.failed[fmt.Sprint("f", i)] = sentinel.ErrKeyNotFound
		}
	}
	if g.Intn(4) > 0 {
		c.items = []*cache.Item{}
		for i := g.Intn(7); i > 0; i-- {
			c.items = append(c.items, &cache.Item{Key: fmt.Sprint(i)})
		}
	}
	if g.Intn(3) > 0 {
		c.st = stats.Stats{"s": &stats.Stat{Count: g.Int()}}
	}
	base := context.WithValue(context.Background(), callID{}, c)
	switch g.Intn(4) {
	case 0:
		cc, cancel := context.WithCancel(base)
		cancel()
		c.ctx = cc
	case 1:
		cc, cancel := context.WithDeadline(base, time.Now().Add(time.Hour))
		_ = cancel
		c.ctx = cc
	default:
		c.ctx = base
	}
	return c
}

// run makes the call through svc and judges the answer. It returns a complaint or "".
func (c *call) run(svc hypercache.Service) (bad string) {
	wantKeys := append([]string(nil), c.keys...)
	defer func() {
		p := recover()
		switch {
		case bad != "":
		case p != nil && c.panics == nil:
			bad = fmt.Sprintf("panicked: %v", p)
		case p == nil && c.panics != nil:
			bad = fmt.Sprintf("the panic %v of the service was swallowed", c.panics)
		case p != nil && p != c.panics:
			bad = fmt.Sprintf("the panic %v became %v", c.panics, p)
		}
		if s := c.bad.Load(); bad == "" && s != nil {
			bad = *s
		}
		if n := c.arrived.Load(); bad == "" && n != 1 {
			bad = fmt.Sprintf("arrived %d times at the service below", n)
		}
		if bad == "" && !reflect.DeepEqual(append([]string(nil), c.keys...), wantKeys) {
			bad = "the caller's keys were changed"
		}
	}()
	errIs := func(err error) {
		if err != c.err {
			bad = fmt.Sprintf("error %v came back as %v", c.err, err)
		}
	}
	switch c.method {
	case "Get":
		v, ok := svc.Get(c.ctx, c.key)
		if !same(v, c.out) || ok != c.ok {
			bad = fmt.Sprintf("(%v,%v) came back as (%v,%v)", c.out, c.ok, v, ok)
		}
	case "Set":
		errIs(svc.Set(c.ctx, c.key, c.value, c.exp))
	case "GetOrSet":
		v, err := svc.GetOrSet(c.ctx, c.key, c.value, c.exp)
		if !same(v, c.out) {
			bad = fmt.Sprintf("%v came back as %v", c.out, v)
		}
		errIs(err)
	case "GetWithInfo":
		it, ok := svc.GetWithInfo(c.ctx, c.key)
		if it != c.item || ok != c.ok {
			bad = fmt.Sprintf("(%v,%v) came back as (%v,%v)", c.item, c.ok, it, ok)
		}
	case "GetMultiple":
		h, f := svc.GetMultiple(c.ctx, c.keys...)
		if !sameMap(h, c.hits) || !sameMap(f, c.failed) {
			bad = fmt.Sprintf("(%v,%v) came back as (%v,%v)", c.hits, c.failed, h, f)
		}
	case "List":
		is, err := svc.List(c.ctx, c.filter...)
		if len(is) != len(c.items) {
			bad = fmt.Sprintf("%d items came back as %d", len(c.items), len(is))
		} else {
			for i := range is {
				if is[i] != c.items[i] {
					bad = fmt.Sprintf("item %d was replaced", i)
				}
			}
		}
		if bad == "" {
			errIs(err)
		}
	case "Remove":
		errIs(svc.Remove(c.ctx, c.keys...))
	case "Clear":
		errIs(svc.Clear(c.ctx))
	case "Count":
		if n := svc.Count(c.ctx); n != c.n {
			bad = fmt.Sprintf("%d came back as %d", c.n, n)
		}
	case "Capacity":
		if n := svc.Capacity(); n != c.n {
			bad = fmt.Sprintf("%d came back as %d", c.n, n)
		}
	case "Allocation":
		if n := svc.Allocation(); n != int64(c.n) {
			bad = fmt.Sprintf("%d came back as %d", c.n, n)
		}
	case "TriggerEviction":
		svc.TriggerEviction(c.ctx)
	case "Stop":
		errIs(svc.Stop(c.ctx))
	case "GetStats":
		if st := svc.GetStats(); !sameMap(st, c.st) {
			bad = fmt.Sprintf("stats %v came back as %v", c.st, st)
		}
	}
	return bad
}

func sameMap(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	return va.Len() == 0 && vb.Len() == 0 || va.Pointer() == vb.Pointer()
}

// ---------------------------------------------------------------- stacks

type countLog struct {
	mu sync.Mutex
	n  int
	by map[string]int
}

func (l *countLog) Printf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	l.mu.Lock()
	l.n++
	for _, m := range append(append([]string{}, withCtx...), noCtx...) {
		if strings.Contains(s, "method "+m+" took") || strings.HasPrefix(s, m+" method") {
			l.by[m]++
		}
	}
	l.mu.Unlock()
}

type stack struct {
	svc    hypercache.Service
	fake   *fake
	desc   string
	colls  []stats.ICollector
	rds    []*sdkmetric.ManualReader
	spans  []*tracetest.SpanRecorder
	ownCol []int // number of stats layers writing to colls[i]
}

func build(r *kit.Run, g *rand.Rand) *stack {
	s := &stack{fake: &fake{}}
	var mws []hypercache.Middleware
	var names []string
	for i := g.Intn(5); i > 0; i-- {
		switch k := g.Intn(4); k {
		case 0:
			l := &countLog{by: map[string]int{}}
			mws = append(mws, func(n hypercache.Service) hypercache.Service { return middleware.NewLoggingMiddleware(n, l) })
			names = append(names, "log")
		case 1:
			rd := sdkmetric.NewManualReader()
			mp := sdkmetric.NewMeterProvider(sdkmetric.WithReader(rd), sdkmetric.WithCardinalityLimit(1<<20))
			s.rds = append(s.rds, rd)
			mws = append(mws, func(n hypercache.Service) hypercache.Service {
				x, err := middleware.NewOTelMetricsMiddleware(n, mp.Meter("m"))
				if err != nil {
					r.Violate("metrics-construct", "NewOTelMetricsMiddleware: %v", err)
					return n
				}
				return x
			})
			names = append(names, "metrics")
		case 2:
			rec := tracetest.NewSpanRecorder()
			tp := sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(rec), sdktrace.WithSampler(sdktrace.AlwaysSample()))
			s.spans = append(s.spans, rec)
			mws = append(mws, func(n hypercache.Service) hypercache.Service {
				return middleware.NewOTelTracingMiddleware(n, tp.Tracer("t"),
					middleware.WithCommonAttributes(attribute.String("common", "yes")), middleware.WithCommonAttributes(attribute.Int("other", 7)))
			})
			names = append(names, "trace")
		default:
			if len(s.colls) > 0 && g.Intn(3) == 0 { // two layers sharing a collector
				j := g.Intn(len(s.colls))
				s.ownCol[j]++
				col := s.colls[j]
				mws = append(mws, func(n hypercache.Service) hypercache.Service { return middleware.NewStatsCollectorMiddleware(n, col) })
			} else {
				col := stats.NewHistogramStatsCollector()
				s.colls, s.ownCol = append(s.colls, col), append(s.ownCol, 1)
				mws = append(mws, func(n hypercache.Service) hypercache.Service { return middleware.NewStatsCollectorMiddleware(n, col) })
			}
			names = append(names, "stats")
		}
	}
	s.desc = strings.Join(names, ">")
	s.svc = hypercache.ApplyMiddleware(s.fake, mws...)
	return s
}

func stacks(r *kit.Run) {
	if !r.Phase("stacks") {
		return
	}
	n := r.N(700, 20000)
	for i := 0; i < n; i++ {
		g := r.Rand("stack", i)
		s := build(r, g)
		r.Seen("stacks", s.desc)
		var calls []*call
		pan := g.Intn(6) == 0
		for j := 5 + g.Intn(40); j > 0; j-- {
			ms := withCtx
			if g.Intn(5) == 0 {
				ms = noCtx
			}
			c := newCall(g, ms[g.Intn(len(ms))])
			c.spanned = len(s.spans) > 0 && c.method != "TriggerEviction" && c.method != "Stop" && c.method != "Count"
			if pan && g.Intn(4) == 0 {
				c.panics = &point{g.Int(), 1}
			}
			s.fake.cur.Store(c)
			if bad := c.run(s.svc); bad != "" {
				r.Violate("call-"+c.method, "stack [%s]: %s(%q %q): %s", s.desc, c.method, c.key, c.keys, bad)
			}
			calls = append(calls, c)
			r.Seen("methods", c.method)
			r.Add("calls", 1)
		}
		judgeCounts(r, s, calls, pan)
		r.Case(fmt.Sprintf("%s/%d/%d", s.desc, i, len(calls)), s.desc != "")
	}
}

func concurrent(r *kit.Run) {
	if !r.Phase("concurrent") {
		return
	}
	n := r.N(60, 1500)
	for i := 0; i < n; i++ {
		g := r.Rand("concurrent", i)
		s := build(r, g)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var calls []*call
		for w := 0; w < 8; w++ {
			wg.Add(1)
			gw := r.Rand("concurrent-w", i, w)
			go func() {
				defer wg.Done()
				for j := 0; j < 60; j++ {
					c := newCall(gw, withCtx[gw.Intn(len(withCtx))])
					c.delay = gw.Intn(8) == 0
					if bad := c.run(s.svc); bad != "" {
						r.Violate("call-"+c.method, "stack [%s], concurrently: %s(%q): %s", s.desc, c.method, c.key, bad)
					}
					mu.Lock()
					calls = append(calls, c)
					mu.Unlock()
				}
			}()
		}
		// the reports may be read at any time
		stop := make(chan struct{})
		var rd sync.WaitGroup
		rd.Add(1)
		go func() {
			defer rd.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				for _, c := range s.colls {
					_ = c.GetStats()
				}
				for _, m := range s.rds {
					var rm metricdata.ResourceMetrics
					_ = m.Collect(context.Background(), &rm)
				}
				time.Sleep(time.Millisecond)
			}
		}()
		wg.Wait()
		close(stop)
		rd.Wait()
		judgeCounts(r, s, calls, false)
		r.Add("concurrent calls", int64(len(calls)))
		r.Case(fmt.Sprintf("conc/%s/%d", s.desc, i), true)
	}
}

var statName = map[string]string{
	"Get": "get", "Set": "set", "GetOrSet": "get_or_set", "GetWithInfo": "get_with_info", "GetMultiple": "get_multiple", "List": "list",
	"Remove": "remove", "Clear": "clear", "TriggerEviction": "trigger_eviction", "Stop": "stop",
}

func judgeCounts(r *kit.Run, s *stack, calls []*call, pan bool) {
	made := map[string]int64{}
	for _, c := range calls {
		made[c.method]++
	}
	for i, col := range s.colls {
		st := col.GetStats()
		for m, name := range statName {
			want := made[m] * int64(s.ownCol[i])
			var sum, timed int64
			if x := st["hypercache_"+name+"_count"]; x != nil {
				sum = x.Sum
			}
			if x := st["hypercache_"+name+"_duration"]; x != nil {
				timed = int64(x.Count)
				if x.Min < 0 || x.Max > int64(time.Minute) {
					r.Violate("stats-duration", "stack [%s]: %s took between %d and %d ns", s.desc, m, x.Min, x.Max)
				}
			}
			if pan { // a call whose service panicked may be counted or not
				if sum > want || timed > want {
					r.Violate("stats-count", "stack [%s]: %d calls of %s counted as %d, timed %d", s.desc, want, m, sum, timed)
				}
				continue
			}
			if sum != want || timed != want {
				r.Violate("stats-count", "stack [%s]: %d calls of %s (times layers) counted as %d, timed %d", s.desc, want, m, sum, timed)
			}
		}
		for name := range st {
			known := false
			for _, n := range statName {
				known = known || name == "hypercache_"+n+"_count" || name == "hypercache_"+n+"_duration"
			}
			if !known {
				r.Violate("stats-unknown", "stack [%s]: statistic %q for no call", s.desc, name)
			}
		}
		r.Add("collector snapshots", 1)
	}
	if pan {
		judgeSpans(r, s, calls, true)
		return
	}
	for _, rd := range s.rds {
		judgeMetrics(r, s, rd, calls)
	}
	judgeSpans(r, s, calls, false)
}

// attrsOf is what the documented attributes of a call have to say.
func attrsOf(c *call) map[string]string {
	m := map[string]string{}
	switch c.method {
	case "Get", "GetWithInfo":
		m["hit"] = fmt.Sprint(c.ok)
		m[attrs.AttrKeyLength] = fmt.Sprint(len(c.key))
	case "Set", "GetOrSet":
		m[attrs.AttrKeyLength] = fmt.Sprint(len(c.key))
		m[attrs.AttrExpirationMS] = fmt.Sprint(c.exp.Milliseconds())
	case "GetMultiple":
		m[attrs.AttrKeysCount] = fmt.Sprint(len(c.keys))
		m[attrs.AttrResultCount] = fmt.Sprint(len(c.hits))
		m[attrs.AttrFailedCount] = fmt.Sprint(len(c.failed))
	case "Remove":
		m[attrs.AttrKeysCount] = fmt.Sprint(len(c.keys))
	case "List":
		m["items.count"] = fmt.Sprint(len(c.items))
	}
	return m
}

var metered = map[string]bool{"Get": true, "Set": true, "GetOrSet": true, "GetWithInfo": true, "GetMultiple": true, "List": true, "Remove": true, "Clear": true}

type tally map[string]int64 // "method|attr=value" -> calls, "method" -> calls

func (t tally) add(method string, as map[string]string, n int64) {
	t[method] += n
	for k, v := range as {
		t[method+"|"+k+"="+v] += n
	}
}

func (t tally) diff(want tally) string {
	var out []string
	for k, v := range t {
		if want[k] != v {
			out = append(out, fmt.Sprintf("%s: reported %d, true %d", k, v, want[k]))
		}
	}
	for k, v := range want {
		if _, ok := t[k]; !ok && v != 0 {
			out = append(out, fmt.Sprintf("%s: reported 0, true %d", k, v))
		}
	}
	sort.Strings(out)
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, "; ")
}

func setOf(as attribute.Set) (string, map[string]string) {
	m, method := map[string]string{}, ""
	for _, kv := range as.ToSlice() {
		if kv.Key == "method" {
			method = kv.Value.AsString()
		} else {
			m[string(kv.Key)] = kv.Value.Emit()
		}
	}
	return method, m
}

func judgeMetrics(r *kit.Run, s *stack, rd *sdkmetric.ManualReader, calls []*call) {
	var rm metricdata.ResourceMetrics
	if err := rd.Collect(context.Background(), &rm); err != nil {
		r.Inconclusive("metrics not collected: " + err.Error())
		return
	}
	want := tally{}
	for _, c := range calls {
		if metered[c.method] {
			as := attrsOf(c)
			delete(as, attrs.AttrExpirationMS)
			want.add(c.method, as, 1)
		}
	}
	got, timed := tally{}, tally{}
	for _, sc := range rm.ScopeMetrics {
		for _, m := range sc.Metrics {
			switch d := m.Data.(type) {
			case metricdata.Sum[int64]:
				if m.Name == "hypercache.calls" {
					for _, p := range d.DataPoints {
						me, as := setOf(p.Attributes)
						got.add(me, as, p.Value)
					}
				}
			case metricdata.Histogram[float64]:
				if m.Name == "hypercache.duration.ms" {
					for _, p := range d.DataPoints {
						me, as := setOf(p.Attributes)
						timed.add(me, as, int64(p.Count))
						if p.Sum < 0 || p.Sum > 60000*float64(p.Count) {
							r.Violate("metrics-duration", "stack [%s]: %d calls of %s took %v ms", s.desc, p.Count, me, p.Sum)
						}
					}
				}
			}
		}
	}
	if d := got.diff(want); d != "" {
		r.Violate("metrics-count", "stack [%s]: hypercache.calls: %s", s.desc, d)
	}
	if d := timed.diff(want); d != "" {
		r.Violate("metrics-durations", "stack [%s]: hypercache.duration.ms: %s", s.desc, d)
	}
	r.Add("metric snapshots", 1)
	r.Add("metric points", int64(len(got)))
}

var traced = map[string]bool{"Get": true, "Set": true, "GetOrSet": true, "GetWithInfo": true, "GetMultiple": true, "List": true, "Remove": true, "Clear": true, "TriggerEviction": true, "Stop": true}

func judgeSpans(r *kit.Run, s *stack, calls []*call, pan bool) {
	for _, rec := range s.spans {
		want, wantErr := tally{}, map[string]int{}
		for _, c := range calls {
			if !traced[c.method] {
				continue
			}
			as := attrsOf(c)
			if c.panics != nil { // outcome attributes are unknown then
				for _, k := range []string{"hit", attrs.AttrResultCount, attrs.AttrFailedCount, "items.count"} {
					delete(as, k)
				}
			}
			if c.method == "List" && c.items == nil {
				delete(as, "items.count")
			}
			want.add(c.method, as, 1)
			switch c.method {
			case "Set", "GetOrSet", "List", "Remove", "Clear":
				if c.err != nil && c.panics == nil {
					wantErr[c.method]++
				}
			}
		}
		got, gotErr := tally{}, map[string]int{}
		ended := rec.Ended()
		if len(ended) != len(rec.Started()) {
			r.Violate("span-open", "stack [%s]: %d spans started, %d ended", s.desc, len(rec.Started()), len(ended))
		}
		for _, sp := range ended {
			m, as := strings.TrimPrefix(sp.Name(), "hypercache."), map[string]string{}
			common := 0
			for _, kv := range sp.Attributes() {
				switch kv.Key {
				case "common":
					if kv.Value.AsString() == "yes" {
						common++
					}
				case "other":
					if kv.Value.AsInt64() == 7 {
						common++
					}
				default:
					as[string(kv.Key)] = kv.Value.Emit()
				}
			}
			if common != 2 {
				r.Violate("span-common", "stack [%s]: span %s lacks the common attributes", s.desc, sp.Name())
			}
			got.add(m, as, 1)
			errs := 0
			for _, e := range sp.Events() {
				if e.Name == "exception" {
					errs++
				}
			}
			if m != "Stop" && m != "TriggerEviction" && (!pan || errs == 0) {
				gotErr[m] += errs
			}
			if sp.EndTime().Before(sp.StartTime()) {
				r.Violate("span-time", "stack [%s]: span %s ends before it starts", s.desc, sp.Name())
			}
			if sp.Status().Code == codes.Error && errs == 0 && !pan {
				r.Violate("span-status", "stack [%s]: span %s has an error status without an error", s.desc, sp.Name())
			}
		}
		if d := got.diff(want); d != "" {
			r.Violate("spans", "stack [%s]: %s", s.desc, d)
		}
		if !pan {
			for m := range traced {
				if gotErr[m] != wantErr[m] {
					r.Violate("span-errors", "stack [%s]: %s returned %d errors, its spans recorded %d", s.desc, m, wantErr[m], gotErr[m])
				}
			}
		}
		r.Add("spans", int64(len(ended)))
	}
}

// ---------------------------------------------------------------- the same history with and without middleware

func mk(capacity int) *hypercache.HyperCache[backend.InMemory] {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = []hypercache.Option[backend.InMemory]{hypercache.WithEvictionInterval[backend.InMemory](time.Hour),
		hypercache.WithExpirationInterval[backend.InMemory](time.Hour)}
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

// realCache runs one history on a bare cache and on a wrapped one; every result must agree. The stats layer re-uses the
// cache's own collector, as its documentation recommends.
func realCache(r *kit.Run) {
	if !r.Phase("real cache") {
		return
	}
	n := r.N(40, 1000)
	for i := 0; i < n; i++ {
		g := r.Rand("real", i)
		bare, under := mk(1000), mk(1000)
		col, shared := stats.ICollector(under.StatsCollector), g.Intn(2) == 0
		if !shared || col == nil {
			col = stats.NewHistogramStatsCollector()
		}
		l := &countLog{by: map[string]int{}}
		var svc hypercache.Service = under
		rec := tracetest.NewSpanRecorder()
		tp := sdktrace.NewTracerProvider(sdktrace.WithSpanProcessor(rec))
		layers := []hypercache.Middleware{
			func(s hypercache.Service) hypercache.Service { return middleware.NewLoggingMiddleware(s, l) },
			func(s hypercache.Service) hypercache.Service {
				return middleware.NewOTelTracingMiddleware(s, tp.Tracer("x"))
			},
			func(s hypercache.Service) hypercache.Service { return middleware.NewStatsCollectorMiddleware(s, col) },
		}
		g.Shuffle(len(layers), func(a, b int) { layers[a], layers[b] = layers[b], layers[a] })
		svc = hypercache.ApplyMiddleware(svc, layers...)
		ctx := context.Background()
		key := func() string { return fmt.Sprint("k", g.Intn(12)) }
		for j := 0; j < 80; j++ {
			var a, b string
			k, v := key(), fmt.Sprint("v", g.Int())
			switch op := g.Intn(9); op {
			case 0, 1, 2:
				a, b = fmt.Sprint(bare.Set(ctx, k, v, 0)), fmt.Sprint(svc.Set(ctx, k, v, 0))
			case 3:
				a, b = fmt.Sprint(bare.Get(ctx, k)), fmt.Sprint(svc.Get(ctx, k))
			case 4:
				a, b = fmt.Sprint(bare.GetOrSet(ctx, k, v, time.Hour)), fmt.Sprint(svc.GetOrSet(ctx, k, v, time.Hour))
			case 5:
				ks := []string{k, key(), key()}
				a, b = fmt.Sprint(bare.GetMultiple(ctx, ks...)), fmt.Sprint(svc.GetMultiple(ctx, ks...))
			case 6:
				ks := []string{k, key()}
				a, b = fmt.Sprint(bare.Remove(ctx, ks...)), fmt.Sprint(svc.Remove(ctx, ks...))
			case 7:
				x, ox := bare.GetWithInfo(ctx, k)
				y, oy := svc.GetWithInfo(ctx, k)
				a, b = info(x, ox), info(y, oy)
			default:
				a, b = all(bare.List(ctx)), all(svc.List(ctx))
			}
			r.Add("paired operations", 1)
			if a != b {
				r.Violate("real", "with [log trace stats] the cache answers %s, bare it answers %s", b, a)
			}
		}
		if bare.Count(ctx) != svc.Count(ctx) || bare.Capacity() != svc.Capacity() || bare.Allocation() != svc.Allocation() {
			r.Violate("real-size", "count/capacity/allocation %d/%d/%d bare, %d/%d/%d wrapped", bare.Count(ctx), bare.Capacity(), bare.Allocation(), svc.Count(ctx), svc.Capacity(), svc.Allocation())
		}
		_ = bare.Stop(ctx)
		if err := svc.Stop(ctx); err != nil {
			r.Violate("real-stop", "Stop through the stack: %v", err)
		}
		r.Case(fmt.Sprint("real/", i), true)
	}
}

func info(it *cache.Item, ok bool) string {
	if it == nil {
		return fmt.Sprint("nil ", ok)
	}
	return fmt.Sprint(it.Key, it.Value, it.Expiration, ok)
}

func all(is []*cache.Item, err error) string {
	var s []string
	for _, it := range is {
		s = append(s, fmt.Sprint(it.Key, "=", it.Value))
	}
	sort.Strings(s)
	return fmt.Sprint(s, err)
}

// ---------------------------------------------------------------- typed views

type shape interface{ Area() int }
type sq struct{ A int }
type psq struct{ A int }

func (s sq) Area() int   { return s.A }
func (p *psq) Area() int { return p.A }

type myStr string

// view hides V so that histories can mix views.
type view interface {
	name() string
	fits(v any) bool
	gen(g *rand.Rand) any
	set(ctx context.Context, k string, v any, exp time.Duration) error
	get(ctx context.Context, k string) (any, bool)
	getTyped(ctx context.Context, k string) (any, error)
	getInfo(ctx context.Context, k string) (*cache.Item, any, bool)
	getOrSet(ctx context.Context, k string, v any) (any, error)
	getMany(ctx context.Context, ks ...string) (map[string]any, map[string]error)
	remove(ctx context.Context, ks ...string) error
	clear(ctx context.Context) error
	zero() any
}

type tv[V any] struct {
	n   string
	t   *hypercache.Typed[backend.InMemory, V]
	mkv func(g *rand.Rand) V
}

func (x tv[V]) name() string         { return x.n }
func (x tv[V]) fits(v any) bool      { _, ok := v.(V); return ok }
func (x tv[V]) gen(g *rand.Rand) any { return x.mkv(g) }
func (x tv[V]) zero() any            { var z V; return z }
func (x tv[V]) set(ctx context.Context, k string, v any, exp time.Duration) error {
	return x.t.Set(ctx, k, v.(V), exp)
}
func (x tv[V]) get(ctx context.Context, k string) (any, bool) { return x.t.Get(ctx, k) }
func (x tv[V]) getTyped(ctx context.Context, k string) (any, error) {
	return x.t.GetTyped(ctx, k)
}
func (x tv[V]) getInfo(ctx context.Context, k string) (*cache.Item, any, bool) {
	return x.t.GetWithInfo(ctx, k)
}
func (x tv[V]) getOrSet(ctx context.Context, k string, v any) (any, error) {
	return x.t.GetOrSet(ctx, k, v.(V), 0)
}
func (x tv[V]) getMany(ctx context.Context, ks ...string) (map[string]any, map[string]error) {
	h, f := x.t.GetMultiple(ctx, ks...)
	m := map[string]any{}
	for k, v := range h {
		m[k] = v
	}
	return m, f
}
func (x tv[V]) remove(ctx context.Context, ks ...string) error { return x.t.Remove(ctx, ks...) }
func (x tv[V]) clear(ctx context.Context) error                { return x.t.Clear(ctx) }

func mkView[V any](n string, hc *hypercache.HyperCache[backend.InMemory], f func(g *rand.Rand) V) view {
	t := hypercache.NewTyped[backend.InMemory, V](hc)
	if t.Underlying() != hc {
		panic("underlying")
	}
	return tv[V]{n, t, f}
}

func views(hc *hypercache.HyperCache[backend.InMemory]) []view {
	return []view{
		mkView("int", hc, func(g *rand.Rand) int { return g.Int() }),
		mkView("int64", hc, func(g *rand.Rand) int64 { return g.Int63() }),
		mkView("string", hc, func(g *rand.Rand) string { return fmt.Sprint("s", g.Int()) }),
		mkView("myStr", hc, func(g *rand.Rand) myStr { return myStr(fmt.Sprint("m", g.Int())) }),
		mkView("bytes", hc, func(g *rand.Rand) []byte { return []byte(fmt.Sprint("b", g.Int())) }),
		mkView("struct", hc, func(g *rand.Rand) point { return point{g.Int(), 1} }),
		mkView("pointer", hc, func(g *rand.Rand) *point { return &point{g.Int(), 2} }),
		mkView("map", hc, func(g *rand.Rand) map[string]int { return map[string]int{"x": g.Int()} }),
		mkView("shape", hc, func(g *rand.Rand) shape {
			if g.Intn(2) == 0 {
				return sq{g.Int()}
			}
			return &psq{g.Int()}
		}),
		mkView("any", hc, func(g *rand.Rand) any {
			return []any{g.Int(), fmt.Sprint("a", g.Int()), sq{g.Int()}, true}[g.Intn(4)]
		}),
		mkView("sq", hc, func(g *rand.Rand) sq { return sq{g.Int()} }),
		mkView("func", hc, func(g *rand.Rand) bool { return g.Intn(2) == 0 }),
	}
}

func typedHistories(r *kit.Run) {
	if !r.Phase("typed histories") {
		return
	}
	n := r.N(250, 8000)
	ctx := context.Background()
	for i := 0; i < n; i++ {
		g := r.Rand("typed", i)
		hc := mk(10000)
		vs := views(hc)
		model := map[string]any{}
		key := func() string { return fmt.Sprint("k", g.Intn(8)) }
		var hist []string
		bad := func(sig, f string, a ...any) {
			r.ViolateWith("typed-"+sig, hist, f+" after "+strings.Join(tail(hist, 8), " "), a...)
		}
		for j := 0; j < 80; j++ {
			v := vs[g.Intn(len(vs))]
			k := key()
			cur, has := model[k]
			fits := has && v.fits(cur)
			op := g.Intn(10)
			hist = append(hist, fmt.Sprintf("%s.%d(%s)", v.name(), op, k))
			switch op {
			case 0, 1, 2:
				val := v.gen(g)
				if err := v.set(ctx, k, val, 0); err != nil {
					bad("set", "Typed[%s].Set(%s): %v", v.name(), k, err)
					continue
				}
				model[k] = val
				if raw, ok := hc.Get(ctx, k); !ok || !same(raw, val) {
					bad("stored", "Typed[%s].Set(%s,%v) stored %v (%v)", v.name(), k, val, raw, ok)
				}
			case 3:
				got, ok := v.get(ctx, k)
				if ok != fits || (fits && !same(got, cur)) || (!fits && !reflect.DeepEqual(got, v.zero())) {
					bad("get", "Typed[%s].Get(%s) = %v,%v; stored %T %v (present %v)", v.name(), k, got, ok, cur, cur, has)
				}
			case 4:
				got, err := v.getTyped(ctx, k)
				switch {
				case !has && !errors.Is(err, sentinel.ErrKeyNotFound), has && !fits && !errors.Is(err, sentinel.ErrTypeMismatch), fits && (err != nil || !same(got, cur)):
					bad("gettyped", "Typed[%s].GetTyped(%s) = %v,%v; stored %T %v (present %v)", v.name(), k, got, err, cur, cur, has)
				case !fits && !reflect.DeepEqual(got, v.zero()):
					bad("gettyped", "Typed[%s].GetTyped(%s) fails and returns %v", v.name(), k, got)
				}
			case 5:
				it, got, ok := v.getInfo(ctx, k)
				if ok != fits || (fits && (!same(got, cur) || it == nil || !same(it.Value, cur) || it.Key != k)) || (!fits && it != nil) {
					bad("info", "Typed[%s].GetWithInfo(%s) = %v,%v,%v; stored %T %v (present %v)", v.name(), k, it, got, ok, cur, cur, has)
				}
			case 6, 7:
				val := v.gen(g)
				got, err := v.getOrSet(ctx, k, val)
				switch {
				case !has:
					model[k] = val
					if err != nil || !same(got, val) {
						bad("getorset", "Typed[%s].GetOrSet(%s,%v) on a missing key = %v,%v", v.name(), k, val, got, err)
					}
				case fits:
					if err != nil || !same(got, cur) {
						bad("getorset", "Typed[%s].GetOrSet(%s) = %v,%v; stored %v", v.name(), k, got, err, cur)
					}
				default:
					if !errors.Is(err, sentinel.ErrTypeMismatch) {
						bad("getorset", "Typed[%s].GetOrSet(%s) = %v,%v; stored %T", v.name(), k, got, err, cur)
					}
				}
				if raw, ok := hc.Get(ctx, k); !ok || !same(raw, model[k]) {
					bad("overwrite", "after Typed[%s].GetOrSet(%s) the cache holds %v (%v), should hold %v", v.name(), k, raw, ok, model[k])
				}
			case 8:
				ks := []string{k, key(), key(), "none"}
				h, f := v.getMany(ctx, ks...)
				for _, kk := range ks {
					c, ok := model[kk]
					hv, hit := h[kk]
					fe, failed := f[kk]
					switch {
					case hit == failed:
						bad("many", "Typed[%s].GetMultiple: %s is in both or neither answer (%v, %v)", v.name(), kk, hv, fe)
					case ok && v.fits(c) && (!hit || !same(hv, c)), ok && !v.fits(c) && !errors.Is(fe, sentinel.ErrTypeMismatch), !ok && !errors.Is(fe, sentinel.ErrKeyNotFound):
						bad("many", "Typed[%s].GetMultiple: %s = %v / %v; stored %T %v (present %v)", v.name(), kk, hv, fe, c, c, ok)
					}
				}
				uniq := map[string]bool{}
				for _, kk := range ks {
					uniq[kk] = true
				}
				if len(h)+len(f) != len(uniq) {
					bad("many", "Typed[%s].GetMultiple of %d keys answers %d", v.name(), len(uniq), len(h)+len(f))
				}
			default:
				if g.Intn(12) == 0 {
					if err := v.clear(ctx); err != nil {
						bad("clear", "Clear: %v", err)
					}
					model = map[string]any{}
				} else {
					if err := v.remove(ctx, k); err != nil {
						bad("remove", "Remove: %v", err)
					}
					delete(model, k)
				}
				if c := hc.Count(ctx); c != len(model) {
					bad("others", "after a removal through Typed[%s] the cache holds %d items, should hold %d", v.name(), c, len(model))
				}
			}
			r.Seen("typed ops", fmt.Sprintf("%s op %d present=%v fits=%v", v.name(), op, has, fits))
			r.Add("typed operations", 1)
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprint("typed/", i), true)
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// typedConcurrent: several views on the same keys; a value seen through a view is one somebody stored under that key and
// of the view's type, and a value settled by GetOrSet is the same for everyone of its type.
func typedConcurrent(r *kit.Run) {
	if !r.Phase("typed concurrent") {
		return
	}
	n := r.N(40, 1000)
	ctx := context.Background()
	for i := 0; i < n; i++ {
		hc := mk(10000)
		vs := views(hc)
		var stored sync.Map // "key|value" -> true
		put := func(k string, v any) { stored.Store(fmt.Sprintf("%s|%T|%v", k, v, deref(v)), true) }
		known := func(k string, v any) bool {
			_, ok := stored.Load(fmt.Sprintf("%s|%T|%v", k, v, deref(v)))
			return ok
		}
		var wg sync.WaitGroup
		var ops atomic.Int64
		for w := 0; w < 8; w++ {
			wg.Add(1)
			g := r.Rand("typedc", i, w)
			go func() {
				defer wg.Done()
				for j := 0; j < 80; j++ {
					v := vs[g.Intn(len(vs))]
					k := fmt.Sprint("k", g.Intn(3))
					ops.Add(1)
					var got any
					var ok bool
					switch g.Intn(6) {
					case 0:
						val := v.gen(g)
						put(k, val)
						if err := v.set(ctx, k, val, 0); err != nil {
							r.Violate("typed-set", "Set: %v", err)
						}
					case 1:
						got, ok = v.get(ctx, k)
					case 2:
						x, err := v.getTyped(ctx, k)
						got, ok = x, err == nil
						if err != nil && !errors.Is(err, sentinel.ErrKeyNotFound) && !errors.Is(err, sentinel.ErrTypeMismatch) {
							r.Violate("typed-gettyped", "GetTyped: %v", err)
						}
					case 3:
						val := v.gen(g)
						put(k, val)
						x, err := v.getOrSet(ctx, k, val)
						got, ok = x, err == nil
						if err != nil && !errors.Is(err, sentinel.ErrTypeMismatch) {
							r.Violate("typed-getorset", "GetOrSet: %v", err)
						}
					case 4:
						h, f := v.getMany(ctx, "k0", "k1", "k2")
						if len(h)+len(f) != 3 {
							r.Violate("typed-many", "GetMultiple of 3 keys answers %d", len(h)+len(f))
						}
						for kk, x := range h {
							if !known(kk, x) {
								r.Violate("typed-foreign", "Typed[%s].GetMultiple: %s = %v, which nobody stored", v.name(), kk, x)
							}
						}
					default:
						_ = v.remove(ctx, k)
					}
					if ok && !known(k, got) {
						r.Violate("typed-foreign", "Typed[%s] returns %v for %s, which nobody stored", v.name(), got, k)
					}
				}
			}()
		}
		wg.Wait()
		_ = hc.Stop(ctx)
		r.Add("typed concurrent operations", ops.Load())
		r.Case(fmt.Sprint("typedc/", i), true)
	}
}

func deref(v any) any {
	switch x := v.(type) {
	case *point:
		return *x
	case *psq:
		return *x
	}
	return v
}
