// C40: fault injection and latency metrics tell the truth.
//
// Oracle: a transport under the chaos wrapper records what reaches it. With zero rates a cluster does, call for call,
// what its unwrapped twin does; with certain drop it does what a twin does whose links all fail; whatever the rates,
// calls seen plus faults counted are the calls made. Every operation is found once in its histogram, in a bucket between
// the delay injected into it and the time it was seen to take; counters are compared with the calls on the wire.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

func main() {
	kit.Main("C40", "an operation through the chaos wrapper or one looked up in the histograms and counters", func(r *kit.Run) {
		twins(r)
		rates(r)
		latency(r)
		methods(r)
		histograms(r)
		counters(r)
	})
}

var bg = context.Background()

type cacheItem = cache.Item

type seenCall struct {
	From, To, Op, Key string
	Replicate         bool
	Version           uint64
	Err               string
}

type recorder struct {
	mu  sync.Mutex
	log []seenCall
}

func (rec *recorder) watch(c dcl.Call) {
	e := ""
	if c.Err != nil {
		e = c.Err.Error()
	}
	rec.mu.Lock()
	rec.log = append(rec.log, seenCall{c.From, c.To, c.Op, c.Key, c.Replicate, c.Item.Version, e})
	rec.mu.Unlock()
}

func (rec *recorder) take() []seenCall {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	l := rec.log
	rec.log = nil
	return l
}

func (rec *recorder) count(f func(seenCall) bool) int64 {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	var n int64
	for _, c := range rec.log {
		if f(c) {
			n++
		}
	}
	return n
}

// build makes a cluster; chaos, if any, is one per node, set up in a drawn way.
func build(g *rand.Rand, n, rf int, level string, wrap bool) (*dcl.Cluster, []*backend.Chaos, *recorder) {
	var ch []*backend.Chaos
	how := g.Intn(3)
	rec := &recorder{}
	cl := dcl.Prepare(dcl.Conf{RF: rf})
	cl.Net.Watch(rec.watch)
	for i := 0; i < n; i++ {
		c := backend.NewChaos()
		conf := dcl.Conf{N: n, RF: rf, Opts: func(i int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{backend.WithDistWriteConsistency(dcl.Levels[level]), backend.WithDistReadConsistency(dcl.Levels[level])}
			if wrap { // after the transport
				o = append(o, backend.WithDistChaos(c))
				if how == 1 { // and before another one
					o = append(o, backend.WithDistTransport(&dcl.T{Net: cl.Net, From: dcl.ID(i)}))
				}
			}
			return o
		}}
		nd := cl.Add(conf, i, n)
		if how == 2 {
			nd.DM.SetTransport(&dcl.T{Net: cl.Net, From: nd.ID})
		}
		ch = append(ch, c)
	}
	return cl, ch, rec
}

type outcome struct {
	What, Err string
	Found     bool
	Value     any
	Version   uint64
	Origin    string
	Keys      []string
	Partial   []string
}

// step does the i-th operation of a history the same way on every twin.
func step(g *rand.Rand, cl *dcl.Cluster, i int) (o outcome, err error) {
	n := cl.Any(g)
	k := fmt.Sprintf("k%d", g.Intn(12))
	switch op := g.Intn(12); op {
	case 0, 1, 2, 3:
		err = n.DM.Set(bg, dcl.Item(k, fmt.Sprintf("v%d", i), 0))
		o.What = "set " + k
	case 4, 5, 6, 7:
		it, ok := n.DM.Get(bg, k)
		o.What, o.Found = "get "+k, ok
		if ok {
			o.Value, o.Version, o.Origin = it.Value, it.Version, it.Origin
		}
	case 8:
		err = n.DM.Remove(bg, k)
		o.What = "remove " + k
	case 9, 10:
		res, e := n.DM.ListKeys(bg, "", 0)
		o.What, err, o.Keys, o.Partial = "keys", e, res.Keys, sortedCopy(res.PartialNodes)
	case 11:
		to := cl.Any(g)
		if to != n {
			err = n.DM.SyncWith(bg, to.ID)
			o.What = "sync " + n.ID + " " + to.ID
		}
	}
	if err != nil {
		o.Err = err.Error()
	}
	return o, err
}

func sortedCopy(s []string) []string {
	out := append([]string{}, s...)
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// kinds counts calls by sender, target, kind: the fan-out of a listing or sync makes them in no fixed order.
func kinds(l []seenCall) map[seenCall]int {
	m := map[seenCall]int{}
	for _, c := range l {
		m[c]++
	}
	return m
}

// twins compares a wrapped cluster with one that is not: zero rates with healthy links, certain drop with dead ones.
func twins(r *kit.Run) {
	if !r.Phase("twins") {
		return
	}
	for i := 0; i < r.N(60, 1200) && r.Violations() == 0; i++ {
		g := r.Rand("twins", i)
		n, rf, level := 2+g.Intn(4), 1+g.Intn(3), dcl.LevelNames[g.Intn(3)]
		seed := g.Int63()
		plain, _, precord := build(rand.New(rand.NewSource(seed)), n, rf, level, false)
		wrapped, ch, wrecord := build(rand.New(rand.NewSource(seed)), n, rf, level, true)
		plain.Net.Generic.Store(true)
		dropping := map[string]bool{}
		plain.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) { return dropping[c.From], false, 0 })
		g1, g2 := rand.New(rand.NewSource(seed+1)), rand.New(rand.NewSource(seed+1))
		attempts := map[string]int64{}
		for j := 0; j < 60; j++ {
			if j%10 == 9 { // change who drops
				for x, nd := range plain.Nodes {
					d := g.Intn(3) == 0
					dropping[nd.ID] = d
					if d {
						ch[x].SetDropRate([]float64{1, 1.5, math.Inf(1)}[g.Intn(3)])
					} else {
						ch[x].SetDropRate([]float64{0, -1, math.Inf(-1)}[g.Intn(3)])
					}
				}
			}
			before := drops(ch)
			a, erra := step(g1, plain, j)
			b, errb := step(g2, wrapped, j)
			after := drops(ch)
			la, lb := precord.take(), wrecord.take()
			var reached []seenCall
			var lost int64
			for _, c := range la {
				if c.Err == dcl.ErrLink.Error() && dropping[c.From] {
					lost++
					attempts[c.From]++
				} else {
					reached = append(reached, c)
				}
			}
			r.Case(fmt.Sprintf("twins/%d/%d", i, j), len(la) > 0)
			r.Add("calls compared", int64(len(la)))
			r.Add("calls dropped", after-before)
			r.Seen("op", fmt.Sprintf("%s %s dropping=%d", a.What[:min(3, len(a.What))], level, min(int(lost), 3)))
			if (erra == nil) != (errb == nil) || errors.Is(erra, dcl.ErrLink) != errors.Is(errb, backend.ErrChaosDrop) || errors.Is(erra, sentinel.ErrQuorumFailed) != errors.Is(errb, sentinel.ErrQuorumFailed) {
				r.Violate("twins:error", "%s under %s: the wrapped node says %v, the bare one with the same links %v (dropping %v)", a.What, level, errb, erra, dropping)
				break
			}
			a.Err, b.Err = "", ""
			if !reflect.DeepEqual(a, b) {
				r.Violate("twins:result", "%s: the wrapped node has %+v, the bare one %+v (dropping %v)", a.What, b, a, dropping)
				break
			}
			if x, y := kinds(reached), kinds(lb); !reflect.DeepEqual(x, y) {
				r.ViolateWith("twins:calls", map[string]any{"bare": fmt.Sprint(reached), "wrapped": fmt.Sprint(lb)}, "%s: the calls that reach the transport under the wrapper are %v, without it %v (dropping %v)", a.What, lb, reached, dropping)
				break
			}
			if after-before != lost {
				r.Violate("twins:drops", "%s: %d calls dropped, %d counted", a.What, lost, after-before)
				break
			}
		}
		for x, nd := range wrapped.Nodes {
			m := nd.DM.Metrics()
			if m.ChaosDrops != ch[x].Drops() || m.ChaosLatencies != 0 || ch[x].Latencies() != 0 || ch[x].Drops() != attempts[nd.ID] {
				r.Violate("twins:metrics", "%s dropped %d calls; chaos says %d (latencies %d), metrics %d (latencies %d)", nd.ID, attempts[nd.ID], ch[x].Drops(), ch[x].Latencies(), m.ChaosDrops, m.ChaosLatencies)
			}
			for k := 0; k < 12; k++ {
				key := fmt.Sprintf("k%d", k)
				a, oka := plain.Local(nd.ID, key)
				b, okb := wrapped.Local(nd.ID, key)
				if oka != okb || oka && (a.Value != b.Value || a.Version != b.Version || a.Origin != b.Origin) {
					r.Violate("twins:state", "%s holds %v %v under the wrapper and %v %v without", nd.ID, okb, b, oka, a)
				}
			}
			pm := plain.Nodes[x].DM.Metrics()
			for _, f := range []string{"ForwardGet", "ForwardSet", "ForwardRemove", "ReplicaFanoutSet", "ReplicaFanoutRemove", "ReadRepair", "WriteAttempts", "WriteAcks", "WriteQuorumFailures", "VersionConflicts", "TombstonesActive"} {
				if field(pm, f) != field(m, f) {
					r.Violate("twins:counter", "%s counts %d %s under the wrapper and %d without", nd.ID, field(m, f), f, field(pm, f))
				}
			}
		}
		plain.Stop()
		wrapped.Stop()
	}
}

func field(m backend.DistMetrics, f string) int64 { return reflect.ValueOf(m).FieldByName(f).Int() }

func drops(ch []*backend.Chaos) (n int64) {
	for _, c := range ch {
		n += c.Drops()
	}
	return n
}

// pair is a node that owns nothing of the keys used and one that owns them all: one call for every operation.
func pair(c *backend.Chaos, opts ...backend.DistMemoryOption) (*dcl.Cluster, *recorder, []string) {
	rec := &recorder{}
	cl := dcl.Prepare(dcl.Conf{RF: 1})
	cl.Net.Watch(rec.watch)
	for i := 0; i < 2; i++ {
		cl.Add(dcl.Conf{N: 2, RF: 1, Opts: func(i int) []backend.DistMemoryOption {
			if i == 0 && c != nil {
				return append([]backend.DistMemoryOption{backend.WithDistChaos(c)}, opts...)
			}
			return opts
		}}, i, 2)
	}
	var keys []string
	for i := 0; len(keys) < 64; i++ {
		if k := fmt.Sprintf("key%d", i); cl.Owners(k)[0] == "n1" {
			keys = append(keys, k)
		}
	}
	return cl, rec, keys
}

// rates draws partial rates, from many goroutines at once, while they are changed as well.
func rates(r *kit.Run) {
	if !r.Phase("rates") {
		return
	}
	for i := 0; i < r.N(40, 600) && r.Violations() == 0; i++ {
		g := r.Rand("rates", i)
		c := backend.NewChaos()
		cl, rec, keys := pair(c)
		p := []float64{0, 0.01, 0.1, 0.5, 0.9, 0.99, 1, 2, -1}[g.Intn(9)]
		q := []float64{0, 0.2, 0.5, 1, 3, -2}[g.Intn(6)]
		d := []time.Duration{0, -5, 1, time.Microsecond}[g.Intn(4)]
		c.SetDropRate(p)
		c.SetLatency(d, q)
		var dropped, through, refused atomic.Int64
		var wg sync.WaitGroup
		per, workers := 100+g.Intn(200), 1+g.Intn(8)
		turning := g.Intn(3) == 0
		for w := 0; w < workers; w++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < per; j++ {
					if turning && h.Intn(20) == 0 {
						c.SetDropRate(h.Float64()*1.4 - 0.2)
					}
					k := keys[h.Intn(len(keys))]
					var err error
					if h.Intn(2) == 0 {
						err = cl.Nodes[0].DM.Set(bg, dcl.Item(k, "v", 0))
					} else {
						err = cl.Nodes[0].DM.Remove(bg, k)
					}
					switch {
					case err == nil:
						through.Add(1)
					case errors.Is(err, backend.ErrChaosDrop):
						dropped.Add(1)
					default:
						refused.Add(1)
						r.Violate("rates:error", "an operation with drop rate %v fails with %v", p, err)
					}
				}
			}()
		}
		wg.Wait()
		total := int64(per * workers)
		reached := rec.count(func(c seenCall) bool { return c.From == "n0" })
		r.Case(fmt.Sprintf("rates/%d", i), p > 0)
		r.Add("calls at partial rates", total)
		r.Seen("rates", fmt.Sprintf("drop %v latency %v turning %v", p, q, turning))
		if c.Drops() != dropped.Load() || reached != through.Load() || dropped.Load()+through.Load() != total {
			r.Violate("rates:count", "of %d calls %d failed with the chaos error and %d went through; counted drops %d, calls that reached the peer %d (rate %v, %d goroutines)", total, dropped.Load(), through.Load(), c.Drops(), reached, p, workers)
		}
		if m := cl.Nodes[0].DM.Metrics(); m.ChaosDrops != c.Drops() || m.ChaosLatencies != c.Latencies() {
			r.Violate("rates:metrics", "metrics report %d drops and %d latencies, chaos counted %d and %d", m.ChaosDrops, m.ChaosLatencies, c.Drops(), c.Latencies())
		}
		within := func(what string, got, of int64, p float64) {
			p = math.Max(0, math.Min(1, p))
			sd := math.Sqrt(p * (1 - p) * float64(of))
			if diff := math.Abs(float64(got) - p*float64(of)); diff > 6*sd+1e-9 {
				r.Violate("rates:"+what, "%d of %d calls had the fault %q at rate %v: %.1f standard deviations off", got, of, what, p, diff/math.Max(sd, 1e-9))
			}
		}
		if !turning {
			within("drop", c.Drops(), total, p)
		}
		if d <= 0 {
			q = 0
		}
		within("latency", c.Latencies(), reached, q)
		cl.Stop()
	}
	// a wrapper that is not there
	var none *backend.Chaos
	none.SetDropRate(1)
	none.SetLatency(time.Hour, 1)
	if none.Drops() != 0 || none.Latencies() != 0 {
		r.Violate("rates:nil", "the absent chaos counts faults")
	}
	cl, _, keys := pair(nil, backend.WithDistChaos(nil))
	if err := cl.Nodes[0].DM.Set(bg, dcl.Item(keys[0], "v", 0)); err != nil {
		r.Violate("rates:nil", "a node with an absent chaos cannot write: %v", err)
	}
	cl.Stop()
}

// latency injects delays that can be told from none.
func latency(r *kit.Run) {
	if !r.Phase("latency") {
		return
	}
	for i := 0; i < r.N(20, 200) && r.Violations() == 0; i++ {
		g := r.Rand("latency", i)
		c := backend.NewChaos()
		cl, rec, keys := pair(c)
		d := time.Duration(3+g.Intn(20)) * time.Millisecond
		c.SetLatency(d, 1)
		n := int64(0)
		for j := 0; j < 6; j++ {
			k := keys[g.Intn(len(keys))]
			if j == 4 {
				c.SetDropRate(1) // what is dropped is not delayed
			}
			if j == 5 {
				c.SetDropRate(0)
				if g.Intn(2) == 0 {
					c.SetLatency(0, 1)
				} else {
					c.SetLatency(d, 0)
				}
			}
			before := c.Latencies()
			start := time.Now()
			var err error
			switch g.Intn(3) {
			case 0:
				err = cl.Nodes[0].DM.Set(bg, dcl.Item(k, "v", 0))
			case 1:
				err = cl.Nodes[0].DM.Remove(bg, k)
			case 2:
				_, _ = cl.Nodes[0].DM.Get(bg, k)
			}
			took := time.Since(start)
			got := c.Latencies() - before
			calls := int64(len(rec.take()))
			n += got
			r.Case(fmt.Sprintf("latency/%d/%d", i, j), true)
			r.Add("delayed calls", got)
			want := calls
			if j == 5 {
				want = 0
			}
			if j < 4 && err != nil {
				r.Violate("latency:error", "a delayed operation fails: %v", err)
			}
			if got != want || j == 4 && calls != 0 {
				r.Violate("latency:count", "step %d: %d calls reached the peer, %d delays counted, %d expected", j, calls, got, want)
			}
			if took < time.Duration(want)*d {
				r.Violate("latency:time", "an operation with %d delays of %v takes %v", want, d, took)
			}
		}
		if m := cl.Nodes[0].DM.Metrics(); m.ChaosLatencies != n {
			r.Violate("latency:metrics", "%d delays, metrics report %d", n, m.ChaosLatencies)
		}
		cl.Stop()
	}
}

// methods drops every kind of call a node makes by itself: probes, indirect probes, gossip, sync, listing.
func methods(r *kit.Run) {
	if !r.Phase("methods") {
		return
	}
	for i := 0; i < r.N(4, 30) && r.Violations() == 0; i++ {
		g := r.Rand("methods", i)
		c := backend.NewChaos()
		rec := &recorder{}
		cl := dcl.Prepare(dcl.Conf{RF: 2})
		cl.Net.Watch(rec.watch)
		for j := 0; j < 3; j++ {
			cl.Add(dcl.Conf{N: 3, RF: 2, Opts: func(i int) []backend.DistMemoryOption {
				o := []backend.DistMemoryOption{backend.WithDistHeartbeat(20*time.Millisecond, time.Minute, time.Hour), backend.WithDistIndirectProbes(2, 50*time.Millisecond),
					backend.WithDistGossipInterval(25 * time.Millisecond), backend.WithDistMerkleAutoSync(40 * time.Millisecond)}
				if i == 0 {
					o = append(o, backend.WithDistChaos(c))
				}
				return o
			}}, j, 3)
		}
		wait := func(ops []string, from time.Time) bool {
			return dcl.Eventually(20*time.Second, func() bool {
				for _, op := range ops {
					if rec.count(func(c seenCall) bool { return c.From == "n0" && c.Op == op }) == 0 {
						return false
					}
				}
				return true
			})
		}
		if !wait([]string{"health", "gossip", "merkle"}, time.Now()) {
			r.Inconclusive("the node's loops did not show")
			cl.Stop()
			return
		}
		if c.Drops() != 0 {
			r.Violate("methods:drops", "%d drops counted at rate zero", c.Drops())
		}
		c.SetDropRate(1)
		time.Sleep(30 * time.Millisecond) // calls that were under way
		rec.take()
		at := c.Drops()
		for j := 0; j < 20; j++ {
			n := cl.Nodes[0]
			k := fmt.Sprint(g.Intn(100))
			_ = n.DM.Set(bg, dcl.Item(k, "v", 0))
			_, _ = n.DM.Get(bg, k)
			_ = n.DM.Remove(bg, k)
			_, _ = n.DM.ListKeys(bg, "", 0)
			_ = n.DM.SyncWith(bg, "n1")
			time.Sleep(10 * time.Millisecond)
		}
		m := cl.Nodes[0].DM.Metrics()
		for _, call := range rec.take() {
			if call.From == "n0" {
				r.Violate("methods:leak", "with certain drop the call %+v reaches the transport", call)
				break
			}
		}
		r.Case(fmt.Sprintf("methods/%d", i), true)
		r.Add("drops of a whole node", c.Drops()-at)
		if m.HeartbeatFailure == 0 || c.Drops()-at < 60 {
			r.Violate("methods:few", "a node cut off by certain drop counts %d drops and %d failed heartbeats", c.Drops()-at, m.HeartbeatFailure)
		}
		c.SetDropRate(0)
		if !wait([]string{"health", "gossip", "merkle"}, time.Now()) {
			r.Violate("methods:stuck", "after drops ended the node's calls do not come back: %v", kinds(rec.take()))
		}
		cl.Stop()
	}
}

var bounds = []time.Duration{50 * time.Microsecond, 100 * time.Microsecond, 250 * time.Microsecond, 500 * time.Microsecond, time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond,
	10 * time.Millisecond, 25 * time.Millisecond, 50 * time.Millisecond, 100 * time.Millisecond, 250 * time.Millisecond, 500 * time.Millisecond, time.Second}

func bucket(d time.Duration) int {
	for i, b := range bounds {
		if d <= b {
			return i
		}
	}
	return len(bounds)
}

func sum(b []uint64) (n uint64) {
	for _, x := range b {
		n += x
	}
	return n
}

func histograms(r *kit.Run) {
	if !r.Phase("histograms") {
		return
	}
	for i := 0; i < r.N(60, 800) && r.Violations() == 0; i++ {
		g := r.Rand("histograms", i)
		cl, _, keys := pair(nil)
		dm := cl.Nodes[0].DM
		prev := dm.LatencyHistograms()
		for j := 0; j < 12 && r.Violations() == 0; j++ {
			delay := []time.Duration{0, 0, 60 * time.Microsecond, 300 * time.Microsecond, 3 * time.Millisecond, 12 * time.Millisecond, 30 * time.Millisecond}[g.Intn(7)]
			if g.Intn(80) == 0 {
				delay = 1100 * time.Millisecond
			}
			cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) { return c.Key == "fail", false, delay })
			k := keys[g.Intn(len(keys))]
			var op string
			start := time.Now()
			switch g.Intn(4) {
			case 0:
				op = "set"
				_ = dm.Set(bg, dcl.Item(k, "v", 0))
			case 1:
				op = "get"
				_, _ = dm.Get(bg, k)
			case 2:
				op = "remove"
				_ = dm.Remove(bg, k)
			case 3: // one operation, however many keys, and failing ones too
				op = []string{"remove", "set", "get"}[g.Intn(3)]
				cl.Net.Down("n1", g.Intn(2) == 0)
				switch op {
				case "remove":
					_ = dm.Remove(bg, k, keys[0], keys[1])
				case "set":
					_ = dm.Set(bg, dcl.Item(k, "v", 0))
				case "get":
					_, _ = dm.Get(bg, k)
				}
				if cl.Net.IsDown("n1") {
					delay = 0
				}
				cl.Net.Down("n1", false)
			}
			took := time.Since(start)
			now := dm.LatencyHistograms()
			r.Case(fmt.Sprintf("histograms/%d/%d", i, j), true)
			for _, o := range []string{"set", "get", "remove"} {
				if len(now[o]) != len(bounds)+1 {
					r.Violate("histograms:shape", "%s has %d buckets", o, len(now[o]))
					return
				}
				for b := range now[o] {
					diff := int64(now[o][b] - prev[o][b])
					if diff == 0 {
						continue
					}
					if o != op || diff != 1 {
						r.Violate("histograms:other", "one %s changes the %s bucket %d by %d", op, o, b, diff)
					} else if lo, hi := bucket(delay), bucket(took); b < lo || b > hi {
						r.Violate("histograms:bucket", "a %s that took %v with an injected delay of %v lands in bucket %d, not within %d..%d", op, took, delay, b, lo, hi)
					}
					r.Seen("bucket", fmt.Sprint(o, b))
				}
			}
			if sum(now[op]) != sum(prev[op])+1 {
				r.Violate("histograms:missed", "one %s changes the number of %s in the histogram from %d to %d", op, op, sum(prev[op]), sum(now[op]))
			}
			prev = now
		}
		cl.Net.Calm()
		// many at once, snapshots meanwhile
		var wg sync.WaitGroup
		per := 200
		ops := [3]atomic.Int64{}
		var done atomic.Bool
		for w := 0; w < 6; w++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < per; j++ {
					k := fmt.Sprint(h.Intn(50))
					x := h.Intn(3)
					switch x {
					case 0:
						_ = dm.Set(bg, dcl.Item(k, "v", 0))
					case 1:
						_, _ = dm.Get(bg, k)
					case 2:
						_ = dm.Remove(bg, k)
					}
					ops[x].Add(1)
				}
			}()
		}
		go func() { wg.Wait(); done.Store(true) }()
		last := prev
		for !done.Load() {
			fin := [3]int64{ops[0].Load(), ops[1].Load(), ops[2].Load()}
			now := dm.LatencyHistograms()
			for x, o := range []string{"set", "get", "remove"} {
				for b := range now[o] {
					if now[o][b] < last[o][b] {
						r.Violate("histograms:back", "%s bucket %d goes from %d back to %d", o, b, last[o][b], now[o][b])
					}
				}
				if c := int64(sum(now[o]) - sum(prev[o])); c < fin[x] || c > ops[x].Load()+6 {
					r.Violate("histograms:live", "%d %s in the histogram while between %d and %d were done", c, o, fin[x], ops[x].Load()+6)
				}
			}
			last = now
			r.Add("snapshots under way", 1)
		}
		now := dm.LatencyHistograms()
		for x, o := range []string{"set", "get", "remove"} {
			r.Add("concurrent operations counted", ops[x].Load())
			if c := int64(sum(now[o]) - sum(prev[o])); c != ops[x].Load() {
				r.Violate("histograms:total", "%d concurrent %s leave %d in the histogram", ops[x].Load(), o, c)
			}
		}
		cl.Stop()
	}
}

// counters compares what a node counts with what went over the wire.
func counters(r *kit.Run) {
	if !r.Phase("counters") {
		return
	}
	for i := 0; i < r.N(150, 2500) && r.Violations() == 0; i++ {
		g := r.Rand("counters", i)
		n, rf, level := 1+g.Intn(5), 1+g.Intn(3), dcl.LevelNames[g.Intn(3)]
		cl, _, rec := build(g, n, rf, level, false)
		snap := func() (m []backend.DistMetrics) {
			for _, nd := range cl.Nodes {
				m = append(m, nd.DM.Metrics())
			}
			return m
		}
		for j := 0; j < 30 && r.Violations() == 0; j++ {
			cl.Net.Heal()
			if g.Intn(3) == 0 {
				cl.Faults(g, 1, g.Intn(2))
			}
			nd := cl.Any(g)
			k := fmt.Sprintf("k%d", g.Intn(10))
			if g.Intn(6) == 0 { // a copy some owner alone has
				o := cl.Owners(k)
				_ = cl.Net.In.ForwardSet(bg, o[g.Intn(len(o))], &[]cacheItem{{Key: k, Value: "w", Version: uint64(1000000 + i*100 + j), Origin: o[0], LastAccess: time.Now()}}[0], false)
			}
			local, held := cl.Local(nd.ID, k)
			owners := cl.Owners(k)
			before := snap()
			rec.take()
			op := []string{"set", "get", "remove"}[g.Intn(3)]
			var err error
			switch op {
			case "set":
				err = nd.DM.Set(bg, dcl.Item(k, j, 0))
			case "get":
				_, _ = nd.DM.Get(bg, k)
			case "remove":
				err = nd.DM.Remove(bg, k)
			}
			after := snap()
			log := rec.take()
			local2, held2 := cl.Local(nd.ID, k)
			r.Case(fmt.Sprintf("counters/%d/%d", i, j), len(log) > 0)
			r.Add("calls counted", int64(len(log)))
			r.Seen("counted op", fmt.Sprintf("%s %s calls=%d err=%v", op, level, min(len(log), 4), err != nil))
			count := func(from, op string, repl bool) (c int64) {
				for _, x := range log {
					if x.From == from && x.Op == op && x.Replicate == repl {
						c++
					}
				}
				return c
			}
			delta := func(x int, f string) int64 { return field(after[x], f) - field(before[x], f) }
			var acks, quorum, attempts int64
			for x, m := range cl.Nodes {
				want := map[string]int64{"ForwardGet": count(m.ID, "get", false)}
				switch op {
				case "set":
					want["ForwardSet"], want["ReplicaFanoutSet"] = count(m.ID, "set", true), count(m.ID, "set", false)
					want["ForwardRemove"], want["ReplicaFanoutRemove"], want["ReadRepair"] = 0, 0, 0
				case "remove":
					want["ForwardRemove"], want["ReplicaFanoutRemove"] = count(m.ID, "remove", true), count(m.ID, "remove", false)
					want["ForwardSet"], want["ReplicaFanoutSet"], want["ReadRepair"] = 0, 0, 0
				case "get":
					want["ForwardSet"], want["ReplicaFanoutSet"], want["ForwardRemove"], want["ReplicaFanoutRemove"] = 0, 0, 0, 0
					want["ReadRepair"] = count(m.ID, "set", false)
					if m == nd && held2 && (!held || local.Version != local2.Version || local.Origin != local2.Origin) {
						want["ReadRepair"]++
					}
				}
				for f, w := range want {
					if d := delta(x, f); d != w {
						r.ViolateWith("counters:"+f, map[string]any{"calls": fmt.Sprint(log), "owners": owners, "level": level}, "%s of %q on %s (owners %v, level %s): %s counts %d %s, the wire saw %d: %v", op, k, nd.ID, owners, level, m.ID, d, f, w, log)
					}
				}
				acks += delta(x, "WriteAcks")
				quorum += delta(x, "WriteQuorumFailures")
				attempts += delta(x, "WriteAttempts")
			}
			wa, wq := int64(0), int64(0)
			if op == "set" {
				wa = 1
				if errors.Is(err, sentinel.ErrQuorumFailed) {
					wq = 1
				}
				if err == nil && acks < int64(dcl.Required(level, len(owners))) {
					r.Violate("counters:WriteAcks", "a write of %q accepted under %s with owners %v counts %d acks", k, level, owners, acks)
				}
				if acks > int64(len(owners)) {
					r.Violate("counters:WriteAcks", "a write of %q with owners %v counts %d acks", k, owners, acks)
				}
				if reach := answered(log, nd.ID, owners); reach >= 0 && err == nil && acks != int64(reach) {
					r.Violate("counters:WriteAcks", "a write of %q reached %d owners of %v and counts %d acks: %v", k, reach, owners, acks, log)
				}
			} else if acks != 0 {
				r.Violate("counters:WriteAcks", "a %s counts %d write acks", op, acks)
			}
			if attempts != wa {
				r.Violate("counters:WriteAttempts", "a %s counts %d write attempts", op, attempts)
			}
			if quorum != wq {
				r.Violate("counters:WriteQuorumFailures", "a %s that ends with %v counts %d quorum failures", op, err, quorum)
			}
		}
		cl.Stop()
	}
	// a key only its primary has: every replica asked for it misses
	for i := 0; i < r.N(20, 200) && r.Violations() == 0; i++ {
		g := r.Rand("misses", i)
		n := 2 + g.Intn(4)
		rf := 2 + g.Intn(n-1)
		cl, _, rec := build(g, n, rf, "ALL", false)
		k := fmt.Sprint(g.Intn(1000))
		owners := cl.Owners(k)
		_ = cl.Net.In.ForwardSet(bg, owners[0], &cacheItem{Key: k, Value: "v", Version: 7, Origin: owners[0], LastAccess: time.Now()}, false)
		nd := cl.Any(g)
		rec.take()
		_, ok := nd.DM.Get(bg, k)
		r.Case(fmt.Sprintf("misses/%d", i), true)
		if m := nd.DM.Metrics(); !ok || m.ReplicaGetMiss != int64(len(owners)-1) {
			r.Violate("counters:ReplicaGetMiss", "reading %q that only its primary of %v has: found %v, %d replica misses counted", k, owners, ok, m.ReplicaGetMiss)
		}
		cl.Stop()
	}
}

// answered is the number of owners that took part in a write decided once, -1 if it was decided more than once.
func answered(log []seenCall, at string, owners []string) int {
	who := at
	got := map[string]bool{}
	for _, c := range log {
		if c.Op == "set" && c.Replicate && c.Err == "" {
			who = c.To
		}
	}
	versions := map[uint64]bool{}
	for _, c := range log {
		if c.Op == "set" && !c.Replicate && c.From == who {
			versions[c.Version] = true
			if c.Err == "" {
				got[c.To] = true
			} else if c.Err != sentinel.ErrBackendNotFound.Error() {
				return -1
			}
		}
	}
	if len(versions) > 1 {
		return -1
	}
	got[who] = true
	return len(got)
}
