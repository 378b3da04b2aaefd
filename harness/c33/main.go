// C33: a deleted key stays deleted, and synchronisation loses no live key.
//
// Oracle: once a removal that reached every owner has returned, no read through any node and no owner may show the key
// until somebody writes it again, whatever stale copies are sent around; a later write has to be visible at once. A
// node that synchronises with a peer keeps everything it held that the peer has nothing newer for, and leaves the peer
// alone. Copies are looked at past the network.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

func main() {
	kit.Main("C33", "a look at a removed key, or at a held key, after stale copies were sent around or nodes synchronised", func(r *kit.Run) {
		stale(r)
		concurrent(r)
		syncKeeps(r)
		expiry(r)
	})
}

type attack struct {
	r     *kit.Run
	g     *rand.Rand
	cl    *dcl.Cluster
	label string
	log   []string
	old   map[string][]cache.Item // every copy ever seen of a key
	mu    sync.Mutex
}

func (a *attack) say(f string, v ...any) { a.log = append(a.log, fmt.Sprintf(f, v...)) }

func (a *attack) record(c dcl.Call) {
	if c.Op == "set" && c.Item.Version > 0 && c.From != "late" {
		a.mu.Lock()
		a.old[c.Key] = append(a.old[c.Key], c.Item)
		a.mu.Unlock()
	}
}

// dead demands that the key is gone for everybody.
func (a *attack) dead(key, after string) {
	owners := a.cl.Owners(key)
	for _, o := range owners {
		if it, ok := a.cl.Local(o, key); ok {
			a.r.ViolateWith("resurrected", a.log, "%s: after %s owner %s holds %s=%v (version %d of %s) again, which was removed", a.label, after, o, key, it.Value, it.Version, it.Origin)
		}
	}
	for _, n := range a.cl.Nodes {
		if it, ok := n.DM.Get(ctx, key); ok {
			a.r.ViolateWith("read-resurrected", a.log, "%s: after %s a read via %s finds %s=%v, which was removed", a.label, after, n.ID, key, it.Value)
		}
		a.r.Case(fmt.Sprint(a.label, len(a.log), n.ID, after), true)
	}
	res, err := a.cl.Any(a.g).DM.ListKeys(ctx, key, 0)
	if err == nil && len(res.Keys) > 0 {
		for _, o := range owners {
			if dcl.Has(owners, o) && len(owners) == len(a.cl.Nodes) {
				a.r.ViolateWith("listed", a.log, "%s: after %s the key listing shows %v, which was removed", a.label, after, res.Keys)
				break
			}
		}
	}
}

func stale(r *kit.Run) {
	if !r.Phase("stale") {
		return
	}
	for i := 0; i < r.N(160, 4000); i++ {
		g := r.Rand("stale", i)
		n := 1 + g.Intn(5)
		rf := 1 + g.Intn(n)
		w, rd := dcl.LevelNames[g.Intn(3)], dcl.LevelNames[g.Intn(3)]
		par, batch, hints, auto, sweep := g.Intn(2) == 0, g.Intn(3) == 0, g.Intn(2) == 0, g.Intn(4) == 0, g.Intn(3) == 0
		chunk := 1 << g.Intn(6)
		http := i%16 == 3
		a := &attack{r: r, g: g, old: map[string][]cache.Item{}}
		a.label = fmt.Sprintf("%d nodes, replication %d, write %s, read %s, parallel %v, repair batch %v, hints %v, auto sync %v, sweeper %v, HTTP %v", n, rf, w, rd, par, batch, hints, auto, sweep, http)
		cl := dcl.New(dcl.Conf{N: n, RF: rf, HTTP: http, Shared: g.Intn(5) == 0, Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{
				backend.WithDistWriteConsistency(dcl.Levels[w]), backend.WithDistReadConsistency(dcl.Levels[rd]),
				backend.WithDistParallelReads(par), backend.WithDistMerkleChunkSize(chunk),
				backend.WithDistTombstoneTTL(time.Hour),
			}
			if sweep {
				o = append(o, backend.WithDistTombstoneSweep(time.Millisecond))
			}
			if hints {
				o = append(o, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Millisecond))
			}
			if auto {
				o = append(o, backend.WithDistMerkleAutoSync(2*time.Millisecond))
			}
			if batch {
				o = append(o, backend.WithDistReadRepairBatch(time.Millisecond, 4))
			}
			return o
		}})
		a.cl = cl
		cl.Net.Generic.Store(g.Intn(2) == 0)
		cl.Net.Watch(a.record)
		keys := []string{"a", "b"}
		seq := 0
		for round := 0; round < 2+g.Intn(3); round++ {
			// A past with failures, so that hints and outdated copies lie about.
			for s := 0; s < 2+g.Intn(5); s++ {
				if g.Intn(2) == 0 {
					cl.Faults(g, g.Intn(2), g.Intn(2))
				}
				seq++
				key := keys[g.Intn(2)]
				nd := cl.Any(g)
				err := nd.DM.Set(ctx, dcl.Item(key, fmt.Sprint("v", seq), time.Hour))
				a.say("set %s=v%d via %s: %v", key, seq, nd.ID, err)
				a.mu.Lock()
				for _, it := range cl.Holders(key) {
					a.old[key] = append(a.old[key], *it)
				}
				a.mu.Unlock()
			}
			cl.Net.Heal()
			key := keys[g.Intn(2)]
			owners := cl.Owners(key)
			nd := cl.Any(g)
			if err := nd.DM.Remove(ctx, key); err != nil {
				r.ViolateWith("remove", a.log, "%s: Remove of %s via %s = %v although every node is up", a.label, key, nd.ID, err)
				break
			}
			a.say("remove %s via %s", key, nd.ID)
			a.dead(key, "the removal")
			for s := 0; s < 4+g.Intn(4); s++ {
				what := ""
				switch g.Intn(5) {
				case 0, 1: // late copies of earlier writes
					a.mu.Lock()
					old := append([]cache.Item(nil), a.old[key]...)
					a.mu.Unlock()
					for x := 0; x < 3 && len(old) > 0; x++ {
						it := old[g.Intn(len(old))]
						if m := markers(cl, owners, key); g.Intn(4) == 0 && m > 0 { // even one as new as the marker
							it.Version = m
						}
						to := owners[g.Intn(len(owners))]
						tr := &dcl.T{Net: cl.Net, From: "late"}
						_ = tr.ForwardSet(ctx, to, &it, false)
						what = fmt.Sprintf("a late copy (version %d) to %s", it.Version, to)
					}
				case 2: // a peer that missed everything synchronises and is synchronised with
					a.mu.Lock()
					old := append([]cache.Item(nil), a.old[key]...)
					a.mu.Unlock()
					var outsiders []*dcl.Node
					for _, m := range cl.Nodes {
						if !dcl.Has(owners, m.ID) {
							outsiders = append(outsiders, m)
						}
					}
					if len(outsiders) == 0 || len(old) == 0 {
						continue
					}
					m := outsiders[g.Intn(len(outsiders))]
					it := old[g.Intn(len(old))]
					m.DM.DebugInject(&it)
					for _, o := range owners {
						_ = cl.Node(o).DM.SyncWith(ctx, m.ID)
					}
					what = fmt.Sprintf("synchronising with %s, which holds a stale copy (version %d)", m.ID, it.Version)
					if g.Intn(2) == 0 {
						_ = m.DM.SyncWith(ctx, owners[0])
						what += " and back"
						if it, ok := cl.Local(m.ID, key); ok {
							r.ViolateWith("marker-ignored", a.log, "%s: after %s it still holds %s=%v", a.label, what, key, it.Value)
						}
					}
				case 3:
					if err := cl.SyncAll(1); err != nil {
						r.ViolateWith("sync", a.log, "%s: SyncWith = %v with every node up", a.label, err)
					}
					what = "synchronising everybody"
				case 4: // hints, sweeper and background synchronisation get their turn
					time.Sleep(2 * time.Millisecond)
					what = "a while"
				}
				if what == "" {
					continue
				}
				a.say("%s", what)
				r.Add("attacks", 1)
				a.dead(key, what)
			}
			if g.Intn(2) == 0 { // a later write is back for good
				seq++
				val := fmt.Sprint("v", seq)
				nd := cl.Any(g)
				err := nd.DM.Set(ctx, dcl.Item(key, val, time.Hour))
				a.say("set %s=%s via %s: %v", key, val, nd.ID, err)
				if err != nil {
					r.ViolateWith("set", a.log, "%s: Set after a removal = %v with every node up", a.label, err)
				}
				_ = cl.SyncAll(1)
				for _, m := range cl.Nodes {
					if it, ok := m.DM.Get(ctx, key); !ok || dcl.Plain(it.Value) != val {
						r.ViolateWith("rewrite-lost", a.log, "%s: %s was removed, then written again as %s; a read via %s gives %v %v", a.label, key, val, m.ID, it, ok)
					}
				}
				for _, o := range cl.Owners(key) {
					if it, ok := cl.Local(o, key); !ok || dcl.Plain(it.Value) != val {
						r.ViolateWith("rewrite-lost", a.log, "%s: %s was removed, then written again as %s; owner %s holds %v %v", a.label, key, val, o, it, ok)
					}
				}
			}
			r.Seen("setups", fmt.Sprint(rf, n, w, rd, hints, auto, sweep, http))
		}
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// markers is the newest delete marker the owners hold.
func markers(cl *dcl.Cluster, owners []string, key string) uint64 {
	var v uint64
	for _, o := range owners {
		it, ok, err := cl.Net.In.ForwardGet(ctx, o, key)
		if err == nil && !ok && it != nil && it.Version > v {
			v = it.Version
		}
	}
	return v
}

// concurrent: removals race with a storm of stale copies; once the removal has returned nobody sees the key again.
func concurrent(r *kit.Run) {
	if !r.Phase("concurrent") {
		return
	}
	for i := 0; i < r.N(120, 3000); i++ {
		g := r.Rand("concurrent", i)
		n := 1 + g.Intn(4)
		rf := 1 + g.Intn(n)
		rd := dcl.LevelNames[g.Intn(3)]
		cl := dcl.New(dcl.Conf{N: n, RF: rf, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{
				backend.WithDistReadConsistency(dcl.Levels[rd]), backend.WithDistTombstoneTTL(time.Hour),
				backend.WithDistTombstoneSweep(time.Millisecond), backend.WithDistMerkleChunkSize(4),
			}
		}})
		label := fmt.Sprintf("%d nodes, replication %d, read %s", n, rf, rd)
		key := fmt.Sprint("k", i)
		var old []cache.Item
		for s := 0; s < 3; s++ {
			if err := cl.Any(g).DM.Set(ctx, dcl.Item(key, fmt.Sprint("v", s), time.Hour)); err != nil {
				r.Violate("set", "%s: %v", label, err)
			}
			for _, it := range cl.Holders(key) {
				old = append(old, *it)
			}
		}
		owners := cl.Owners(key)
		var removed atomic.Bool
		stop := make(chan struct{})
		var wg sync.WaitGroup
		spawn := func(fn func(lg *rand.Rand)) {
			wg.Add(1)
			lg := rand.New(rand.NewSource(g.Int63()))
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						fn(lg)
					}
				}
			}()
		}
		for x := 0; x < 2; x++ {
			spawn(func(lg *rand.Rand) {
				it := old[lg.Intn(len(old))]
				_ = cl.Net.In.ForwardSet(ctx, owners[lg.Intn(len(owners))], &it, false)
				r.Add("stale-copies", 1)
			})
			spawn(func(lg *rand.Rand) {
				was := removed.Load()
				nd := cl.Any(lg)
				if it, ok := nd.DM.Get(ctx, key); ok && was {
					r.Violate("seen-after-removal", "%s: a read via %s begun after the removal returned finds version %d", label, nd.ID, it.Version)
				}
				for _, o := range owners {
					was := removed.Load()
					if it, ok := cl.Local(o, key); ok && was {
						r.Violate("held-after-removal", "%s: owner %s holds version %d after the removal returned", label, o, it.Version)
					}
				}
				if was {
					r.Add("looks-after-removal", 1)
				}
			})
		}
		spawn(func(lg *rand.Rand) { _ = cl.Any(lg).DM.SyncWith(ctx, cl.Any(lg).ID) })
		time.Sleep(time.Duration(g.Intn(500)) * time.Microsecond)
		if err := cl.Any(g).DM.Remove(ctx, key); err != nil {
			r.Violate("remove", "%s: %v", label, err)
		}
		removed.Store(true)
		time.Sleep(2 * time.Millisecond)
		close(stop)
		wg.Wait()
		r.Case(label+key, true)
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// syncKeeps: synchronising destroys nothing that is newer or unknown to the peer, and does not touch the peer.
func syncKeeps(r *kit.Run) {
	if !r.Phase("sync") {
		return
	}
	type snap struct {
		v    uint64
		o    string
		dead bool
		val  any
	}
	for i := 0; i < r.N(150, 4000); i++ {
		g := r.Rand("sync", i)
		keys := 1 + g.Intn(40)
		if i%10 == 0 {
			keys = 300 + g.Intn(500)
		}
		chunk := 1 << g.Intn(9)
		http := i%12 == 5
		cl := dcl.New(dcl.Conf{N: 2, RF: 1 + g.Intn(2), HTTP: http, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistMerkleChunkSize(chunk)}
		}})
		label := fmt.Sprintf("%d keys, chunk size %d, HTTP %v", keys, chunk, http)
		for k := 0; k < keys; k++ {
			key := fmt.Sprintf("k%03d", k)
			for _, nd := range cl.Nodes {
				if g.Intn(5) == 0 {
					continue
				}
				v := uint64(1 + g.Intn(4))
				o := string(rune('a' + g.Intn(2)))
				nd.DM.DebugInject(&cache.Item{Key: key, Value: fmt.Sprint(o, v), Version: v, Origin: o, LastUpdated: time.Now()})
			}
		}
		if g.Intn(2) == 0 {
			for k := 0; k < keys; k++ {
				if g.Intn(4) == 0 {
					_ = cl.Net.In.ForwardRemove(ctx, cl.Any(g).ID, fmt.Sprintf("k%03d", k), false)
				}
			}
			if g.Intn(2) == 0 { // and some are written again, beyond the marker
				for k := 0; k < keys; k++ {
					if g.Intn(8) == 0 {
						id := cl.Any(g).ID
						_ = cl.Net.In.ForwardSet(ctx, id, &cache.Item{Key: fmt.Sprintf("k%03d", k), Value: "again" + id, Version: 1000, Origin: id, LastUpdated: time.Now()}, false)
					}
				}
			}
		}
		take := func(id string) map[string]snap {
			m := map[string]snap{}
			for k := 0; k < keys; k++ {
				key := fmt.Sprintf("k%03d", k)
				if it, ok, _ := cl.Net.In.ForwardGet(ctx, id, key); it != nil {
					m[key] = snap{it.Version, it.Origin, !ok, dcl.Plain(it.Value)}
				}
			}
			return m
		}
		for round := 0; round < 3; round++ {
			x := g.Intn(2)
			a, b := cl.Nodes[x], cl.Nodes[1-x]
			a0, b0 := take(a.ID), take(b.ID)
			if err := a.DM.SyncWith(ctx, b.ID); err != nil {
				r.Violate("sync", "%s: SyncWith = %v", label, err)
			}
			a1, b1 := take(a.ID), take(b.ID)
			for k, was := range b0 {
				if b1[k] != was {
					r.Violate("peer-changed", "%s: while %s pulled from %s, the latter's %s went from %v to %v", label, a.ID, b.ID, k, was, b1[k])
				}
			}
			for k := 0; k < keys; k++ {
				key := fmt.Sprintf("k%03d", k)
				mine, had := a0[key]
				theirs, has := b0[key]
				now, is := a1[key]
				newer := has && (!had || theirs.v > mine.v || theirs.v == mine.v && (theirs.dead && !mine.dead || theirs.dead == mine.dead && dcl.After(theirs.v, theirs.o, mine.v, mine.o)))
				switch {
				case !newer && had && (!is || now != mine):
					r.Violate("sync-lost", "%s: %s held %v for %s; after synchronising with a peer holding %v (%v) it holds %v (%v)", label, a.ID, mine, key, theirs, has, now, is)
				case newer && !theirs.dead && now != theirs:
					r.Violate("sync-missed", "%s: %s held %v for %s; after synchronising with a peer holding the newer %v it holds %v (%v)", label, a.ID, mine, key, theirs, now, is)
				case newer && theirs.dead && had && is && !now.dead:
					r.Violate("sync-undead", "%s: %s held %v for %s; after synchronising with a peer that removed it (%v) it holds %v", label, a.ID, mine, key, theirs, now)
				}
				r.Case(fmt.Sprint("sync", i, round, key), had || has)
			}
		}
		r.Seen("sync-setups", fmt.Sprint(chunk, keys > 100, http))
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// expiry: markers live as long as configured, no longer, and are counted exactly.
func expiry(r *kit.Run) {
	if !r.Phase("expiry") {
		return
	}
	for i := 0; i < r.N(24, 300); i++ {
		g := r.Rand("expiry", i)
		ttl := time.Duration(60+g.Intn(60)) * time.Millisecond
		cl := dcl.New(dcl.Conf{N: 2, RF: 2, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistTombstoneTTL(ttl), backend.WithDistTombstoneSweep(time.Millisecond)}
		}})
		n := 1 + g.Intn(20)
		old := map[string]cache.Item{}
		for k := 0; k < n; k++ {
			key := fmt.Sprint("k", k)
			if g.Intn(4) > 0 {
				_ = cl.Any(g).DM.Set(ctx, dcl.Item(key, "v", time.Hour))
				for _, it := range cl.Holders(key) {
					old[key] = *it
				}
			}
		}
		began := time.Now()
		for k := 0; k < n; k++ {
			if err := cl.Any(g).DM.Remove(ctx, fmt.Sprint("k", k)); err != nil {
				r.Violate("remove", "%v", err)
			}
		}
		if m := cl.Nodes[0].DM.Metrics().TombstonesActive; m != int64(n) && time.Since(began) < ttl {
			r.Violate("count", "%d keys removed, %d delete markers counted", n, m)
		}
		for key, it := range old {
			_ = cl.Net.In.ForwardSet(ctx, "n0", &it, false)
			_, ok := cl.Local("n0", key)
			if ok && time.Since(began) < ttl {
				r.Violate("early", "a stale copy came back %v after the removal, with markers kept for %v", time.Since(began), ttl)
			}
			if !ok {
				r.Add("refused-in-time", 1)
			}
			r.Case(fmt.Sprint("expiry", i, key), true)
		}
		ended := time.Now()
		if !dcl.Eventually(10*time.Second, func() bool {
			return cl.Nodes[0].DM.Metrics().TombstonesActive == 0 && cl.Nodes[1].DM.Metrics().TombstonesActive == 0
		}) {
			r.Violate("kept", "markers kept for %v are still there %v later", ttl, time.Since(ended))
		}
		for _, nd := range cl.Nodes {
			// the sweeper books a pass once it is over, so the count may trail the markers
			dcl.Eventually(10*time.Second, func() bool { return nd.DM.Metrics().TombstonesPurged > 0 || len(old) == n })
			m := nd.DM.Metrics()
			if m.TombstonesPurged > int64(n) || m.TombstonesPurged == 0 && len(old) < n {
				r.Violate("purged", "%d keys removed, %d markers counted as purged on %s", n, m.TombstonesPurged, nd.ID)
			}
		}
		cl.Stop()
	}
}
