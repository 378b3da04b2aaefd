// C31: acknowledged distributed writes are read back through any node.
//
// Oracle: a reference register per key. Sequential histories (with failures the levels tolerate) are compared step by
// step; concurrent histories are recorded and checked offline: a read may return a write that overlaps it or the last
// one before it, never one that was certainly overwritten, one nobody made, or nothing where something must be.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

func main() {
	kit.Main("C31", "a read judged against the acknowledged writes before it", func(r *kit.Run) {
		sequential(r)
		anyLevel(r)
		concurrent(r)
	})
}

type conf struct {
	w, r       string
	parallel   bool
	repair     bool
	hints      bool
	sync       bool
	background bool
}

func draw(g *rand.Rand) conf {
	return conf{
		w: dcl.LevelNames[1+g.Intn(2)], r: dcl.LevelNames[1+g.Intn(2)], parallel: g.Intn(2) == 0,
		repair: g.Intn(3) == 0, hints: g.Intn(3) == 0, sync: g.Intn(4) == 0,
	}
}

func (c conf) opts(int) []backend.DistMemoryOption {
	o := []backend.DistMemoryOption{
		backend.WithDistWriteConsistency(dcl.Levels[c.w]), backend.WithDistReadConsistency(dcl.Levels[c.r]),
		backend.WithDistParallelReads(c.parallel),
	}
	if c.repair {
		o = append(o, backend.WithDistReadRepairBatch(time.Millisecond, 4))
	}
	if c.hints {
		o = append(o, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Millisecond))
	}
	if c.sync {
		o = append(o, backend.WithDistMerkleAutoSync(2*time.Millisecond))
	}
	return o
}

const none = "" // what a register holds when the key is not there

// sequential: one operation at a time; failures no larger than the levels tolerate.
func sequential(r *kit.Run) {
	if !r.Phase("sequential") {
		return
	}
	for i := 0; i < r.N(220, 4500); i++ {
		g := r.Rand("sequential", i)
		n := 1 + g.Intn(6)
		rf := 1 + g.Intn(min(n, 5))
		c := draw(g)
		cc := dcl.Conf{N: n, RF: rf, Opts: c.opts, HTTP: i%16 == 9, Shared: g.Intn(5) == 0}
		cl := dcl.New(cc)
		cl.Net.Generic.Store(g.Intn(2) == 0)
		owners := min(rf, n)
		tolerated := owners - max(dcl.Required(c.w, owners), dcl.Required(c.r, owners))
		flaky := g.Intn(3) == 0
		var mu sync.Mutex
		var on bool
		dg := rand.New(rand.NewSource(g.Int63()))
		cl.Net.Disturb(func(k dcl.Call) (bool, bool, time.Duration) {
			mu.Lock()
			defer mu.Unlock()
			if !on || k.Op != "set" {
				return false, false, 0
			}
			switch dg.Intn(8) {
			case 0:
				return true, false, 0
			case 1:
				return false, true, 0
			}
			return false, false, 0
		})
		type reg struct {
			val   string          // last acknowledged
			maybe map[string]bool // not acknowledged, may have taken effect
			doubt bool            // some write was not acknowledged since the last one that reached every owner
		}
		regs := map[string]*reg{}
		ttls := map[string][]time.Duration{} // the lifetimes a value was written with, the one every owner has last
		var log []string
		say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		label := fmt.Sprintf("%d nodes, replication %d, write %s, read %s, parallel %v, repair batch %v, hints %v, sync %v, HTTP %v", n, rf, c.w, c.r, c.parallel, c.repair, c.hints, c.sync, cc.HTTP)
		seq, faults := 0, 0
		for step := 0; step < 25; step++ {
			if g.Intn(4) == 0 {
				cl.Net.Heal()
				down := g.Intn(tolerated + 1)
				var ids []string
				for _, p := range g.Perm(n)[:down] {
					cl.Net.Down(dcl.ID(p), true)
					ids = append(ids, dcl.ID(p))
				}
				faults = down
				say("down: %v", ids)
			}
			mu.Lock()
			on = flaky && g.Intn(2) == 0
			disturbed := on
			mu.Unlock()
			node := cl.Any(g)
			for cl.Net.IsDown(node.ID) {
				node = cl.Any(g)
			}
			key := fmt.Sprintf("k%d", g.Intn(4))
			q := regs[key]
			if q == nil {
				q = &reg{maybe: map[string]bool{}}
				regs[key] = q
			}
			op := g.Intn(10)
			if op >= 8 && (faults > 0 || disturbed) {
				op = 0
			}
			switch {
			case op < 4: // write
				seq++
				val := fmt.Sprint("v", seq)
				ttl := time.Duration(g.Intn(3)) * time.Hour
				if g.Intn(3) == 0 && q.val != none { // the same value again, with another lifetime
					val = q.val
				}
				err := node.DM.Set(ctx, dcl.Item(key, val, ttl))
				say("set %s=%s for %v via %s: %v", key, val, ttl, node.ID, err)
				if healthy := faults == 0 && !disturbed; err != nil {
					q.doubt = true
				} else if healthy {
					q.doubt = false
				}
				if q.doubt {
					ttls[val] = append(ttls[val], ttl)
				} else {
					ttls[val] = []time.Duration{ttl}
				}
				if err == nil {
					q.val = val
					delete(q.maybe, val)
					if faults == 0 && !disturbed {
						q.maybe = map[string]bool{}
					}
				} else {
					q.maybe[val] = true
				}
			case op < 8: // read
				it, ok := node.DM.Get(ctx, key)
				got := none
				if ok {
					got, _ = dcl.Plain(it.Value).(string)
					if it.Key != key || it.Version == 0 || !slices.Contains(ttls[got], it.Expiration) {
						r.ViolateWith("altered", log, "%s: read of %s via %s returns %+v; it was written with lifetime %v", label, key, node.ID, *it, ttls[got])
					}
				}
				say("get %s via %s: %q", key, node.ID, got)
				if got != q.val && !q.maybe[got] {
					r.ViolateWith("read", log, "%s: read of %s (owners %v) via %s returns %q; the last acknowledged value is %q, unacknowledged since: %v", label, key, cl.Owners(key), node.ID, got, q.val, q.maybe)
				}
				r.Case(fmt.Sprint(label, i, step), q.val != none)
				r.Add("reads", 1)
				r.Seen("situations", fmt.Sprint(rf, c.w, c.r, faults, node.ID == cl.Owners(key)[0], dcl.Has(cl.Owners(key), node.ID), ok, disturbed))
			default: // removal, every owner reachable
				err := node.DM.Remove(ctx, key)
				say("remove %s via %s: %v", key, node.ID, err)
				if err != nil {
					r.ViolateWith("remove", log, "%s: Remove of %s via %s = %v although every owner is up", label, key, node.ID, err)
				}
				q.val, q.maybe, q.doubt = none, map[string]bool{}, false
			}
		}
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// anyLevel: with every node up, a write is on every owner when it returns, so reads see it at any level.
func anyLevel(r *kit.Run) {
	if !r.Phase("anyLevel") {
		return
	}
	for i := 0; i < r.N(80, 1500); i++ {
		g := r.Rand("anyLevel", i)
		n := 1 + g.Intn(6)
		rf := 1 + g.Intn(n)
		c := draw(g)
		c.w, c.r = dcl.LevelNames[g.Intn(3)], dcl.LevelNames[g.Intn(3)]
		cl := dcl.New(dcl.Conf{N: n, RF: rf, Opts: c.opts, Plain: true, HTTP: i%16 == 3})
		vals, lives := map[string]any{}, map[string]time.Duration{}
		for step := 0; step < 25; step++ {
			key := fmt.Sprintf("k%d", g.Intn(5))
			node := cl.Any(g)
			switch g.Intn(5) {
			case 0, 1:
				v := any(fmt.Sprint("v", step))
				if old, ok := vals[key]; ok && g.Intn(2) == 0 {
					v = old // the same value again, only the lifetime is new
				}
				lives[key] = time.Duration(1+g.Intn(5)) * time.Hour
				if err := node.DM.Set(ctx, dcl.Item(key, v.(string), lives[key])); err != nil {
					r.Violate("healthy-set", "Set via %s = %v with every node up", node.ID, err)
				}
				vals[key] = v
			case 2:
				if err := node.DM.Remove(ctx, key); err != nil {
					r.Violate("healthy-remove", "Remove via %s = %v with every node up", node.ID, err)
				}
				delete(vals, key)
			default:
				it, ok := node.DM.Get(ctx, key)
				want, live := vals[key]
				if ok != live || ok && dcl.Plain(it.Value) != want {
					r.Violate("read-healthy", "%d nodes, replication %d, write %s, read %s: read of %s (owners %v) via %s returns %v %v, want %v %v", n, rf, c.w, c.r, key, cl.Owners(key), node.ID, it, ok, want, live)
				}
				if ok && it.Expiration != lives[key] {
					r.Violate("altered", "%d nodes, replication %d, write %s, read %s: read of %s via %s reports a lifetime of %v, the last write gave it %v", n, rf, c.w, c.r, key, node.ID, it.Expiration, lives[key])
				}
				if ok { // what a reader does with its copy stays with the reader
					it.Value, it.Version, it.Key = "vandal", 1<<40, "vandal"
				}
				r.Case(fmt.Sprint("any", i, step), live)
				r.Add("reads", 1)
			}
		}
		cl.Stop()
	}
}

type event struct {
	write      bool
	key, val   string
	start, end int64
	ok         bool
	via        string
}

// concurrent: several clients; the recorded history is checked as a regular register per key.
func concurrent(r *kit.Run) {
	if !r.Phase("concurrent") {
		return
	}
	for i := 0; i < r.N(120, 2500); i++ {
		g := r.Rand("concurrent", i)
		n := 3 + g.Intn(4)
		rf := 1 + g.Intn(min(n, 5))
		c := draw(g)
		http := i%16 == 5
		cl := dcl.New(dcl.Conf{N: n, RF: rf, Opts: c.opts, HTTP: http, Shared: g.Intn(5) == 0})
		owners := min(rf, n)
		tolerated := owners - max(dcl.Required(c.w, owners), dcl.Required(c.r, owners))
		down := g.Intn(tolerated + 1)
		perm := g.Perm(n)
		for _, p := range perm[:down] {
			cl.Net.Down(dcl.ID(p), true)
		}
		delays := g.Intn(2) == 0
		var mu sync.Mutex
		dg := rand.New(rand.NewSource(g.Int63()))
		cl.Net.Disturb(func(k dcl.Call) (bool, bool, time.Duration) {
			if !delays {
				return false, false, 0
			}
			mu.Lock()
			defer mu.Unlock()
			if dg.Intn(3) == 0 {
				return false, false, time.Duration(dg.Intn(300)) * time.Microsecond
			}
			return false, false, 0
		})
		t0 := time.Now()
		var hist []event
		var hmu sync.Mutex
		var wg sync.WaitGroup
		workers := 2 + g.Intn(4)
		for w := 0; w < workers; w++ {
			gw := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := 0; s < 8; s++ {
					node := cl.Node(dcl.ID(perm[down+gw.Intn(n-down)]))
					e := event{key: fmt.Sprintf("k%d", gw.Intn(2)), via: node.ID}
					switch x := gw.Intn(8); {
					case x < 3:
						e.write, e.val = true, fmt.Sprintf("w%d.%d", w, s)
						it := dcl.Item(e.key, e.val, time.Hour)
						e.start = int64(time.Since(t0))
						err := node.DM.Set(ctx, it)
						e.end, e.ok = int64(time.Since(t0)), err == nil
					case x == 3 && down == 0:
						e.write = true
						e.start = int64(time.Since(t0))
						err := node.DM.Remove(ctx, e.key)
						e.end, e.ok = int64(time.Since(t0)), err == nil
					default:
						e.start = int64(time.Since(t0))
						it, ok := node.DM.Get(ctx, e.key)
						e.end, e.ok = int64(time.Since(t0)), true
						if ok {
							e.val, _ = dcl.Plain(it.Value).(string)
							check(r, it, e.key)
						}
					}
					hmu.Lock()
					hist = append(hist, e)
					hmu.Unlock()
				}
			}()
		}
		wg.Wait()
		for k := 0; k < 2; k++ { // the final word, through every node that is up
			for _, p := range perm[down:] {
				e := event{key: fmt.Sprintf("k%d", k), via: dcl.ID(p), start: int64(time.Since(t0)), ok: true}
				if it, ok := cl.Node(e.via).DM.Get(ctx, e.key); ok {
					e.val, _ = dcl.Plain(it.Value).(string)
				}
				e.end = int64(time.Since(t0))
				hist = append(hist, e)
			}
		}
		sort.Slice(hist, func(a, b int) bool { return hist[a].start < hist[b].start })
		regular(r, fmt.Sprintf("%d nodes (%d down), replication %d, write %s, read %s, parallel %v, HTTP %v", n, down, rf, c.w, c.r, c.parallel, http), hist)
		over := 0
		for a := range hist {
			for b := range hist[:a] {
				if hist[b].end > hist[a].start && hist[a].key == hist[b].key {
					over++
				}
			}
		}
		r.Add("overlaps", int64(over))
		r.Case(fmt.Sprint("concurrent", i), over > 0)
		r.Seen("interleavings", shape(hist))
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

func check(r *kit.Run, it *cache.Item, key string) {
	if it.Key != key || it.Version == 0 || it.Expiration != time.Hour || it.Origin == "" {
		r.Violate("altered", "a read of %s returns %+v, written with a lifetime of an hour", key, *it)
	}
}

// shape abstracts a history to the order of its operations.
func shape(h []event) string {
	var b strings.Builder
	for _, e := range h {
		c := "r"
		if e.write {
			c = "w"
		}
		b.WriteString(c + e.key[1:] + e.val + ";")
	}
	return b.String()
}

func regular(r *kit.Run, label string, hist []event) {
	by := map[string][]event{}
	for _, e := range hist {
		by[e.key] = append(by[e.key], e)
	}
	for key, h := range by {
		for _, rd := range h {
			if rd.write {
				continue
			}
			// candidates: writes of the value returned (a removal, or nothing at all, for a miss)
			valid, made := false, false
			consider := func(w event) {
				made = true
				if w.start > rd.end {
					return
				}
				for _, o := range h { // overwritten for certain before the read began?
					if o.write && o.ok && o.start > w.end && o.end < rd.start && w.ok {
						return
					}
				}
				valid = true
			}
			for _, w := range h {
				if w.write && w.val == rd.val {
					consider(w)
				}
			}
			if rd.val == none {
				consider(event{write: true, ok: true, start: -2, end: -1})
			}
			r.Add("reads", 1)
			if !made {
				r.ViolateWith("invented", h, "%s: a read of %s via %s returns %q, which nobody wrote", label, key, rd.via, rd.val)
			} else if !valid {
				r.ViolateWith("stale", dump(h), "%s: the read of %s via %s in [%d,%d] returns %q although an acknowledged write replaced it before", label, key, rd.via, rd.start, rd.end, rd.val)
			}
		}
	}
}

func dump(h []event) []string {
	var s []string
	for _, e := range h {
		op := "get"
		if e.write {
			op = "set"
			if e.val == none {
				op = "remove"
			}
		}
		s = append(s, fmt.Sprintf("[%d,%d] %s %q via %s ok=%v", e.start, e.end, op, e.val, e.via, e.ok))
	}
	return s
}
