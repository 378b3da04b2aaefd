// C12: recorded statistics equal the true statistics of the recorded samples.
package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

func main() {
	kit.Main("C12", "random sample sequences (small, negative, duplicate, extreme magnitudes) over 1..4 statistics and window sizes 1..4096, every snapshot compared with exact big-number statistics; "+
		"concurrent recorders and readers under the race detector compared at quiescence and bounded while running; non-trivial = at least 2 samples", run)
}

var names = []constants.Stat{"alpha", "beta", "gamma", ""}

func run(r *kit.Run) {
	if r.Phase("sequential") {
		for i := 0; i < r.N(1500, 30000); i++ {
			sequential(r, r.Rand("seq", i), i)
		}
	}
	if r.Phase("extreme") {
		extreme(r)
	}
	if r.Phase("concurrent") {
		for i := 0; i < r.N(60, 1500); i++ {
			concurrent(r, r.Rand("conc", i), i)
		}
	}
	if r.Phase("races") {
		races(r, time.Duration(r.N(5, 120))*time.Second)
	}
	if r.Phase("first-sample") {
		first(r)
	}
	if r.Phase("memory") {
		memory(r)
	}
	if r.Phase("registry") {
		registry(r)
	}
}

func gen(rng *rand.Rand, style int) int64 {
	switch style {
	case 0:
		return rng.Int63n(20) - 5
	case 1:
		return rng.Int63n(2_000_000_000)
	case 2:
		return -rng.Int63n(1 << 40)
	case 3: // large but so that sums of a window stay in range
		return (int64(1) << 52) + rng.Int63n(1<<20)
	case 4:
		return 7
	default:
		v := rng.Int63n(1 << uint(1+rng.Intn(45)))
		if rng.Intn(2) == 0 {
			v = -v
		}
		return v
	}
}

func record(c stats.ICollector, rng *rand.Rand, st constants.Stat, v int64) int64 {
	switch rng.Intn(5) {
	case 0:
		c.Incr(st, v)
	case 1:
		c.Decr(st, v)
		return -v
	case 2:
		c.Timing(st, v)
	case 3:
		c.Gauge(st, v)
	default:
		c.Histogram(st, v)
	}
	return v
}

func close64(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func ratf(x *big.Rat) float64 { f, _ := x.Float64(); return f }

type model struct{ all []int64 }

func (m *model) window(capacity int) []int64 {
	w := m.all
	if len(w) > capacity {
		w = w[len(w)-capacity:]
	}
	w = slices.Clone(w)
	slices.Sort(w)
	return w
}

func trueMean(v []int64) *big.Rat {
	s := new(big.Int)
	for _, x := range v {
		s.Add(s, big.NewInt(x))
	}
	return new(big.Rat).SetFrac(s, big.NewInt(int64(len(v))))
}

func trueVar(v []int64) float64 {
	m := trueMean(v)
	acc := new(big.Rat)
	for _, x := range v {
		d := new(big.Rat).Sub(new(big.Rat).SetInt64(x), m)
		acc.Add(acc, d.Mul(d, d))
	}
	acc.Quo(acc, new(big.Rat).SetInt64(int64(len(v))))
	return ratf(acc)
}

func trueMedian(w []int64) float64 {
	n := len(w)
	if n%2 == 1 {
		return float64(w[n/2])
	}
	s := new(big.Int).Add(big.NewInt(w[n/2-1]), big.NewInt(w[n/2]))
	return ratf(new(big.Rat).SetFrac(s, big.NewInt(2)))
}

// rankOK accepts either usual nearest-rank convention.
func rankOK(w []int64, p, got float64) bool {
	n := len(w)
	switch {
	case p <= 0:
		return got == float64(w[0])
	case p >= 1:
		return got == float64(w[n-1])
	}
	for _, i := range []int{int(float64(n) * p), int(math.Ceil(float64(n)*p)) - 1} {
		i = min(max(i, 0), n-1)
		if got == float64(w[i]) {
			return true
		}
	}
	return false
}

func checkStat(r *kit.Run, st *stats.Stat, m *model, capacity int, where string, wit any) {
	if st == nil {
		r.ViolateWith("missing-"+where, wit, "a statistic with %d samples is not reported", len(m.all))
		return
	}
	n := len(m.all)
	sum := new(big.Int)
	for _, x := range m.all {
		sum.Add(sum, big.NewInt(x))
	}
	if st.Count != n {
		r.ViolateWith("count-"+where, wit, "count is %d after %d samples", st.Count, n)
	}
	if sum.IsInt64() && st.Sum != sum.Int64() {
		r.ViolateWith("sum-"+where, wit, "sum is %d, samples total %v", st.Sum, sum)
	}
	if st.Min != slices.Min(m.all) || st.Max != slices.Max(m.all) {
		r.ViolateWith("extremes-"+where, wit, "min/max are %d/%d, true %d/%d", st.Min, st.Max, slices.Min(m.all), slices.Max(m.all))
	}
	if mt := ratf(trueMean(m.all)); sum.IsInt64() && !close64(st.Mean, mt) {
		r.ViolateWith("mean-"+where, wit, "mean is %v, true %v", st.Mean, mt)
	}
	w := m.window(capacity)
	vals := slices.Clone(st.Values)
	slices.Sort(vals)
	if !slices.Equal(vals, w) {
		r.ViolateWith("window-"+where, wit, "retained values are not the last min(%d,%d) samples", capacity, n)
		return
	}
	scale := math.Max(math.Abs(float64(w[0])), math.Abs(float64(w[len(w)-1])))
	if md := trueMedian(w); math.Abs(st.Median-md) > 1e-12*scale { // float64 holds 53 bits
		r.ViolateWith("median-"+where, wit, "median is %v, true %v", st.Median, md)
	}
	tv := trueVar(w)
	// rounding of the mean of huge samples leaves an error proportional to (ulp of the sample)^2
	tol := 1e-9*tv + math.Pow(scale*1e-13, 2)*4 + scale*1e-13*math.Sqrt(tv)*4
	if math.Abs(st.Variance-tv) > tol+1e-12 {
		r.ViolateWith("variance-"+where, wit, "variance is %v, true %v (window of %d, %d recorded)", st.Variance, tv, len(w), n)
	}
}

func sequential(r *kit.Run, rng *rand.Rand, i int) {
	caps := []int{1, 2, 3, 7, 16, 64, stats.DefaultSampleCapacity}
	ci := rng.Intn(len(caps))
	capacity := caps[ci]
	var c *stats.HistogramStatsCollector
	switch {
	case capacity == stats.DefaultSampleCapacity && rng.Intn(3) == 0:
		c = stats.NewHistogramStatsCollector()
	case capacity == stats.DefaultSampleCapacity:
		c = stats.NewHistogramStatsCollectorWithCapacity([]int{0, -1, stats.DefaultSampleCapacity}[rng.Intn(3)])
	default:
		c = stats.NewHistogramStatsCollectorWithCapacity(capacity)
	}
	n := rng.Intn(60)
	if rng.Intn(20) == 0 {
		n = capacity + rng.Intn(capacity+10)
	}
	k := 1 + rng.Intn(len(names))
	style := rng.Intn(6)
	models := make([]model, k)
	type snap struct {
		got  stats.Stats
		copy map[string]stats.Stat
	}
	var snaps []snap
	var rec []string
	look := func() {
		got := c.GetStats()
		for j := range models {
			name := names[j].String()
			if len(models[j].all) == 0 {
				if got[name] != nil {
					r.Violate("phantom", "statistic %q reported without samples: %+v", name, *got[name])
				}
				if c.Mean(names[j]) != 0 || c.Median(names[j]) != 0 || c.Percentile(names[j], 0.5) != 0 {
					r.Violate("phantom", "statistic %q has non-zero mean/median/percentile without samples", name)
				}
				continue
			}
			checkStat(r, got[name], &models[j], capacity, "sequential", rec)
			w := models[j].window(capacity)
			if md := c.Median(names[j]); !close64(md, trueMedian(w)) {
				r.ViolateWith("median-fn", rec, "Median is %v, true %v", md, trueMedian(w))
			}
			sum := new(big.Int)
			for _, x := range models[j].all {
				sum.Add(sum, big.NewInt(x))
			}
			if mt := ratf(trueMean(models[j].all)); sum.IsInt64() && !close64(c.Mean(names[j]), mt) {
				r.ViolateWith("mean-fn", rec, "Mean is %v, true %v", c.Mean(names[j]), mt)
			}
			prev := math.Inf(-1)
			for _, p := range []float64{-1, 0, 0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999, 1, 2, math.Inf(1)} {
				v := c.Percentile(names[j], p)
				if !rankOK(w, p, v) {
					r.ViolateWith("percentile", rec, "percentile %v of %d values is %v", p, len(w), v)
				}
				if v < prev {
					r.ViolateWith("percentile-order", rec, "percentile %v is %v, below a lower percentile's %v", p, v, prev)
				}
				prev = v
			}
			r.Guard(func() { _ = c.Percentile(names[j], math.NaN()) })
		}
		if len(got) > k {
			r.Violate("phantom", "%d statistics reported, %d recorded", len(got), k)
		}
		cp := map[string]stats.Stat{}
		for n, s := range got {
			x := *s
			x.Values = slices.Clone(s.Values)
			cp[n] = x
		}
		snaps = append(snaps, snap{got, cp})
		// vandalise another snapshot
		for _, s := range c.GetStats() {
			for q := range s.Values {
				s.Values[q] = 424242
			}
			s.Count = -1
		}
	}
	for s := 0; s < n; s++ {
		j := rng.Intn(k)
		v := record(c, rng, names[j], gen(rng, style))
		models[j].all = append(models[j].all, v)
		rec = append(rec, fmt.Sprintf("%s:%d", names[j], v))
		if rng.Intn(10) == 0 && n < 200 {
			look()
		}
	}
	look()
	for _, s := range snaps {
		for n, x := range s.copy {
			y := s.got[n]
			if y.Count != x.Count || y.Sum != x.Sum || !slices.Equal(y.Values, x.Values) || y.Mean != x.Mean || y.Min != x.Min || y.Max != x.Max {
				r.ViolateWith("snapshot-changed", rec, "a snapshot changed after it was returned")
			}
		}
	}
	r.Case(fmt.Sprint(capacity, rec), n >= 2)
	r.Add("samples", int64(n))
	r.Add("snapshots", int64(len(snaps)))
	if i < 2 {
		r.Sample("sequence", map[string]any{"window": capacity, "samples": rec[:min(len(rec), 12)]})
	}
}

// extreme: values at the ends of the int64 range.
func extreme(r *kit.Run) {
	ext := []int64{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 0, 1, -1, math.MaxInt64 / 2, math.MinInt64 / 2, 1 << 62, -(1 << 62)}
	for _, a := range ext {
		for _, b := range ext {
			for _, capacity := range []int{1, 2, 8} {
				c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
				c.Gauge("x", a)
				c.Gauge("x", b)
				m := model{all: []int64{a, b}}
				checkStat(r, c.GetStats()["x"], &m, capacity, "extreme", []int64{a, b})
				r.Case(fmt.Sprint("x", a, b, capacity), true)
			}
		}
	}
}

func concurrent(r *kit.Run, rng *rand.Rand, i int) {
	capacity := []int{1, 5, 100, 4096}[rng.Intn(4)]
	c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
	g := 2 + rng.Intn(7)
	per := 50 + rng.Intn(600)
	k := 1 + rng.Intn(3)
	style := rng.Intn(6)
	type rec struct {
		st int
		v  int64
	}
	plans := make([][]rec, g)
	models := make([]model, k)
	for w := range plans {
		for s := 0; s < per; s++ {
			j := rng.Intn(k)
			v := gen(rng, style)
			plans[w] = append(plans[w], rec{j, v})
			models[j].all = append(models[j].all, v)
		}
	}
	started := make([]atomic.Int64, k)
	ended := make([]atomic.Int64, k)
	universe := make([]map[int64]bool, k)
	for j := range models {
		universe[j] = map[int64]bool{}
		for _, v := range models[j].all {
			universe[j][v] = true
		}
	}
	var wg, rg sync.WaitGroup
	stop := make(chan struct{})
	for q := 0; q < 2; q++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			last := make([]int, k)
			for {
				select {
				case <-stop:
					return
				default:
				}
				lo := make([]int64, k)
				for j := range lo {
					lo[j] = ended[j].Load()
				}
				got := c.GetStats()
				for j := range lo {
					hi := started[j].Load()
					st := got[names[j].String()]
					if st == nil {
						if lo[j] > 0 {
							r.Violate("lost-snapshot", "statistic missing from a snapshot taken after %d samples were recorded", lo[j])
						}
						continue
					}
					if int64(st.Count) < lo[j] || int64(st.Count) > hi || st.Count < last[j] {
						r.Violate("count-concurrent", "snapshot count %d outside [%d,%d] (previous %d)", st.Count, lo[j], hi, last[j])
					}
					last[j] = st.Count
					if !universe[j][st.Min] || !universe[j][st.Max] || st.Min > st.Max {
						r.Violate("extremes-concurrent", "snapshot min/max %d/%d were never recorded (count %d)", st.Min, st.Max, st.Count)
					}
					for _, v := range st.Values {
						if !universe[j][v] {
							r.Violate("value-invented", "snapshot holds %d, which nobody recorded", v)
						}
					}
					if len(st.Values) > capacity {
						r.Violate("unbounded", "window of %d holds %d values", capacity, len(st.Values))
					}
					_ = c.Median(names[j])
					_ = c.Percentile(names[j], 0.9)
					_ = c.Mean(names[j])
				}
				r.Add("concurrent_snapshots", 1)
				runtime.Gosched()
			}
		}()
	}
	for w := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, p := range plans[w] {
				started[p.st].Add(1)
				switch p.v & 3 {
				case 0:
					c.Incr(names[p.st], p.v)
				case 1:
					c.Timing(names[p.st], p.v)
				case 2:
					c.Decr(names[p.st], -p.v)
				default:
					c.Histogram(names[p.st], p.v)
				}
				ended[p.st].Add(1)
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	got := c.GetStats()
	for j := range models {
		m := &models[j]
		if len(m.all) == 0 {
			continue
		}
		st := got[names[j].String()]
		if st == nil {
			r.Violate("missing-concurrent", "statistic missing after %d samples", len(m.all))
			continue
		}
		sum := new(big.Int)
		for _, x := range m.all {
			sum.Add(sum, big.NewInt(x))
		}
		if st.Count != len(m.all) || (sum.IsInt64() && st.Sum != sum.Int64()) || st.Min != slices.Min(m.all) || st.Max != slices.Max(m.all) {
			r.Violate("aggregate-concurrent", "after %d concurrent samples: count %d sum %d min %d max %d, true sum %v min %d max %d", len(m.all), st.Count, st.Sum, st.Min, st.Max, sum, slices.Min(m.all), slices.Max(m.all))
		}
		if sum.IsInt64() && !close64(st.Mean, ratf(trueMean(m.all))) {
			r.Violate("mean-concurrent", "mean %v, true %v", st.Mean, ratf(trueMean(m.all)))
		}
		cnt := map[int64]int{}
		for _, v := range m.all {
			cnt[v]++
		}
		for _, v := range st.Values {
			if cnt[v]--; cnt[v] < 0 {
				r.Violate("value-duplicated", "value %d is retained more often than it was recorded", v)
				break
			}
		}
		if len(st.Values) > 0 {
			w := slices.Clone(st.Values)
			slices.Sort(w)
			if !close64(st.Median, trueMedian(w)) || !rankOK(w, 0.9, c.Percentile(names[j], 0.9)) {
				r.Violate("median-concurrent", "median %v is not that of the retained values (%v)", st.Median, trueMedian(w))
			}
		}
		r.Add("concurrent_samples", int64(len(m.all)))
		r.Add("window_samples_skipped_under_contention", int64(min(len(m.all), capacity)-len(st.Values)))
	}
	r.Case(fmt.Sprint("conc", i, g, per, capacity), true)
}

// first: readers spinning while the first sample of a statistic is recorded.
// races records, in lockstep from several goroutines, values that each lower the minimum and raise the
// maximum, in rounds of a few samples, so that updates of the extremes and sums meet within a few
// instructions; the exact aggregates are checked after every round.
func races(r *kit.Run, budget time.Duration) {
	const g = 6
	end := time.Now().Add(budget)
	var round, ready atomic.Int64
	var cur atomic.Pointer[stats.HistogramStatsCollector]
	var per atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for seen := int64(0); ; {
				n := round.Load()
				if n == seen {
					runtime.Gosched()
					continue
				}
				if n < 0 {
					return
				}
				seen = n
				c := cur.Load()
				for i := int64(0); i < per.Load(); i++ {
					v := 1 + i*g + int64(w)
					if (i+int64(w))&1 == 0 {
						c.Decr(names[0], v)
						c.Incr(names[0], v)
					} else {
						c.Timing(names[0], v)
						c.Gauge(names[0], -v)
					}
				}
				ready.Add(1)
			}
		}()
	}
	rounds := int64(0)
	for time.Now().Before(end) {
		c := stats.NewHistogramStatsCollectorWithCapacity(8)
		c.Incr(names[0], 0)
		k := 1 + rounds%9
		per.Store(k)
		cur.Store(c)
		ready.Store(0)
		rounds++
		round.Store(rounds)
		for ready.Load() < g {
			runtime.Gosched()
		}
		top := k * g
		st := c.GetStats()[names[0].String()]
		if st == nil || st.Count != int(2*top+1) || st.Sum != 0 || st.Min != -top || st.Max != top {
			r.Violate("aggregate-race", "after %d concurrent samples spread over [-%d,%d]: %+v", 2*top+1, top, top, st)
		}
	}
	round.Store(-1)
	wg.Wait()
	r.Add("lockstep_rounds", rounds)
	r.Case("races", rounds > 0)
}

func first(r *kit.Run) {
	for i := 0; i < r.N(2500, 40000); i++ {
		c := stats.NewHistogramStatsCollectorWithCapacity(4)
		var go1 sync.WaitGroup
		start := make(chan struct{})
		for q := 0; q < 2; q++ {
			go1.Add(1)
			go func() {
				defer go1.Done()
				<-start
				for z := 0; z < 30; z++ {
					if st := c.GetStats()["f"]; st != nil {
						if st.Min < 5 || st.Max > 6 || st.Min > st.Max {
							r.Violate("extremes-first", "a snapshot during the first sample shows min %d max %d; only 5 and 6 are recorded", st.Min, st.Max)
						}
						return
					}
				}
			}()
		}
		for q := int64(0); q < 2; q++ {
			go1.Add(1)
			go func() { defer go1.Done(); <-start; c.Incr("f", 5+q) }()
		}
		close(start)
		go1.Wait()
		r.Case(fmt.Sprint("first", i), true)
	}
}

func memory(r *kit.Run) {
	c := stats.NewHistogramStatsCollectorWithCapacity(64)
	for i := 0; i < 1000; i++ {
		c.Timing("m", int64(i))
	}
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 1_000_000; i++ {
		c.Timing("m", int64(i))
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	grown := int64(b.HeapAlloc) - int64(a.HeapAlloc)
	r.Max("heap_growth_bytes_after_1M_samples", max(grown, 0))
	if grown > 3<<20 {
		r.Violate("memory", "recording 1M samples into a window of 64 grew the heap by %d bytes", grown)
	}
	if st := c.GetStats()["m"]; st.Count != 1_001_000 || len(st.Values) != 64 || st.Min != 0 || st.Max != 999_999 {
		r.Violate("memory", "after 1.001M samples: count %d values %d min %d max %d", st.Count, len(st.Values), st.Min, st.Max)
	}
	r.Case("memory", true)
}

func registry(r *kit.Run) {
	if c, err := stats.NewCollector("default"); err != nil || c == nil {
		r.Violate("registry", "the default collector is not available: %v", err)
	} else {
		c.Incr("a", 3)
		if s := c.GetStats()["a"]; s == nil || s.Sum != 3 {
			r.Violate("registry", "the default collector does not record")
		}
		d, _ := stats.NewCollector("default")
		if len(d.GetStats()) != 0 {
			r.Violate("registry", "two collectors share their statistics")
		}
	}
	if c, err := stats.NewCollector(""); !errors.Is(err, sentinel.ErrParamCannotBeEmpty) || c != nil {
		r.Violate("registry", "empty collector name gives %v, %v", c, err)
	}
	for _, n := range []string{"Default", "default ", "nope", "histogram"} {
		if c, err := stats.NewCollector(n); !errors.Is(err, sentinel.ErrStatsCollectorNotFound) || c != nil {
			r.Violate("registry", "unknown collector %q gives %v, %v", n, c, err)
		}
	}
	e := stats.NewEmptyCollectorRegistry()
	if _, err := e.NewCollector("default"); !errors.Is(err, sentinel.ErrStatsCollectorNotFound) {
		r.Violate("registry", "empty registry knows a collector: %v", err)
	}
	boom := errors.New("boom")
	mine := stats.NewHistogramStatsCollector()
	e.Register("mine", func() (stats.ICollector, error) { return mine, nil })
	e.Register("bad", func() (stats.ICollector, error) { return nil, boom })
	if c, err := e.NewCollector("mine"); err != nil || c != stats.ICollector(mine) {
		r.Violate("registry", "registered collector not returned: %v %v", c, err)
	}
	if _, err := e.NewCollector("bad"); !errors.Is(err, boom) {
		r.Violate("registry", "constructor error lost: %v", err)
	}
	e.Register("mine", func() (stats.ICollector, error) { return nil, boom })
	if _, err := e.NewCollector("mine"); !errors.Is(err, boom) {
		r.Violate("registry", "re-registration ignored")
	}
	r.Case("registry", true)
}
