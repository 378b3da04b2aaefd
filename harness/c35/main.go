// C35: rebalancing moves every key to its owners without losing any.
//
// Oracle: the copies every node holds are read past the network. After a series of joins, departures and crashes (seen
// by the members at different moments) and once rebalancing has come to rest, every key of which a member still had a
// copy has to be on all owners in its newest surviving version. Meanwhile a poller, which knows each node's view of the
// ring, demands that no node drops a key it owned all along, or one it lost before the configured grace is over.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var ctx = context.Background()

func main() {
	kit.Main("C35", "a key whose copies were compared with its owners after members came and went, or a look at a copy meanwhile", func(r *kit.Run) {
		moves(r)
		grace(r)
	})
}

type world struct {
	r     *kit.Run
	cl    *dcl.Cluster
	conf  dcl.Conf
	label string
	mu    sync.Mutex
	log   []string
	live  map[string]bool // members
	next  int
	gone  []string // left in order: still run, and hand over what they have
}

func (w *world) say(f string, a ...any) {
	w.mu.Lock()
	w.log = append(w.log, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

func (w *world) history() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string(nil), w.log...)
}

func (w *world) members() []*dcl.Node {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*dcl.Node
	for _, n := range w.cl.Nodes {
		if w.live[n.ID] {
			out = append(out, n)
		}
	}
	return out
}

// join starts a node; the members hear of it one after the other.
func (w *world) join(g *rand.Rand, lag time.Duration) {
	i := w.next
	w.next++
	w.mu.Lock()
	if w.conf.HTTP {
		w.cl.Reserve(i + 1)
	}
	n := w.cl.Add(w.conf, i, 0)
	w.mu.Unlock()
	old := w.members()
	for _, m := range old {
		n.M.Upsert(cluster.NewNode(m.ID, w.addr(m.ID)))
	}
	for _, x := range g.Perm(len(old)) {
		old[x].M.Upsert(cluster.NewNode(n.ID, w.addr(n.ID)))
		time.Sleep(time.Duration(g.Int63n(int64(lag) + 1)))
	}
	for _, x := range w.gone {
		w.cl.Node(x).M.Upsert(cluster.NewNode(n.ID, w.addr(n.ID)))
	}
	w.mu.Lock()
	w.live[n.ID] = true
	w.mu.Unlock()
	w.say("%s joins", n.ID)
}

func (w *world) addr(id string) string {
	var i int
	fmt.Sscanf(id, "n%d", &i)
	return w.cl.Addr(i)
}

// leave takes a node out of every view; a crashed one is also gone, an orderly one still runs and hands over.
func (w *world) leave(g *rand.Rand, id string, crash bool, lag time.Duration) {
	if crash { // never before the last change has settled: what is on its way to a node that dies may die with it
		w.cl.Net.Down(id, true)
	}
	w.mu.Lock()
	delete(w.live, id)
	w.mu.Unlock()
	rest := w.members()
	if !crash { // it also knows
		w.gone = append(w.gone, id)
		w.cl.Node(id).M.Remove(cluster.NodeID(id))
	}
	for _, x := range g.Perm(len(rest)) {
		rest[x].M.Remove(cluster.NodeID(id))
		time.Sleep(time.Duration(g.Int63n(int64(lag) + 1)))
	}
	for _, x := range w.gone {
		w.cl.Node(x).M.Remove(cluster.NodeID(id))
	}
	w.say("%s leaves (crash %v)", id, crash)
}

func (w *world) owners(key string) []string { return w.members()[0].OwnersSeenBy(key) }

// settled reports whether every key is where it belongs, or what is wrong.
func (w *world) settled(keys []string, want map[string]uint64) (string, bool) {
	for _, k := range keys {
		for _, o := range w.owners(k) {
			it, ok := w.cl.Local(o, k)
			if want[k] == 0 {
				continue
			}
			if !ok {
				return fmt.Sprintf("owner %s of %s (owners %v) has no copy; the newest surviving version is %d", o, k, w.owners(k), want[k]), false
			}
			if it.Version < want[k] {
				return fmt.Sprintf("owner %s of %s (owners %v) holds version %d; the newest surviving version is %d", o, k, w.owners(k), it.Version, want[k]), false
			}
		}
	}
	return "", true
}

// sync runs anti-entropy among the members.
func (w *world) sync() {
	ms := w.members()
	for _, a := range ms {
		for _, b := range ms {
			if a != b {
				if err := a.DM.SyncWith(ctx, b.ID); err != nil {
					w.r.ViolateWith("sync", w.history(), "%s: SyncWith = %v", w.label, err)
				}
			}
		}
	}
}

// newest of what the members and those that are leaving hold, per key.
func (w *world) newest(keys []string, into map[string]uint64) {
	for _, k := range keys {
		ids := append([]string(nil), w.gone...)
		for _, n := range w.members() {
			ids = append(ids, n.ID)
		}
		for _, id := range ids { // twice: a copy that moved meanwhile is met at its destination
			if it, ok := w.cl.Local(id, k); ok && it.Version > into[k] {
				into[k] = it.Version
			}
		}
		for _, id := range ids {
			if it, ok := w.cl.Local(id, k); ok && it.Version > into[k] {
				into[k] = it.Version
			}
		}
	}
}

// guard polls the copies of the members: an owner keeps what it owns.
func (w *world) guard(keys []string, stop chan struct{}, done *sync.WaitGroup) {
	defer done.Done()
	type seen struct {
		ver  uint64 // of the membership view
		held uint64
	}
	last := map[string]seen{}
	for {
		for _, n := range w.members() {
			for _, k := range keys {
				before := n.M.Version()
				owns := dcl.Has(n.OwnersSeenBy(k), n.ID)
				it, ok := w.cl.Local(n.ID, k)
				after := n.M.Version()
				was := last[n.ID+k]
				if owns && before == after {
					if was.held > 0 && was.ver == before && (!ok || it.Version < was.held) {
						w.r.ViolateWith("owner-dropped", w.history(), "%s: %s owns %s and held version %d, but not any more (now %v)", w.label, n.ID, k, was.held, it)
					}
					if ok {
						last[n.ID+k] = seen{before, it.Version}
						continue
					}
				}
				last[n.ID+k] = seen{}
			}
		}
		w.r.Add("guard-rounds", 1)
		select {
		case <-stop:
			return
		case <-time.After(200 * time.Microsecond):
		}
	}
}

func moves(r *kit.Run) {
	if !r.Phase("moves") {
		return
	}
	for i := 0; i < r.N(70, 1600); i++ {
		g := r.Rand("moves", i)
		n := 1 + g.Intn(5)
		rf := 1 + g.Intn(4)
		var batch, conc, diff int
		if g.Intn(2) == 0 {
			batch, conc, diff = 1+g.Intn(4), 1+g.Intn(3), 1+g.Intn(5)
		}
		removal := time.Duration(g.Intn(3)) * 4 * time.Millisecond
		hints := g.Intn(2) == 0
		nkeys := 1 + g.Intn(40)
		// Changes one after the other are rebalancing's own business; after changes that overlap, anti-entropy has the
		// last word, as documented.
		spaced := g.Intn(2) == 0
		writers := g.Intn(2)
		lag := time.Duration(g.Intn(3)) * time.Millisecond
		w := &world{r: r, live: map[string]bool{}, next: n}
		w.label = fmt.Sprintf("%d nodes, replication %d, %d keys, batch %d, concurrency %d, replica diff %d, grace %v, hints %v, writers %d, lag %v, spaced %v, HTTP %v", n, rf, nkeys, batch, conc, diff, removal, hints, writers, lag, spaced, i%16 == 11)
		w.conf = dcl.Conf{N: n, RF: rf, HTTP: i%16 == 11, Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{
				backend.WithDistRebalanceInterval(time.Millisecond), backend.WithDistRebalanceBatchSize(batch),
				backend.WithDistRebalanceMaxConcurrent(conc), backend.WithDistReplicaDiffMaxPerTick(diff),
				backend.WithDistRemovalGrace(removal), backend.WithDistWriteConsistency(backend.ConsistencyAll),
				backend.WithDistReadConsistency(backend.ConsistencyQuorum),
			}
			if hints {
				o = append(o, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Millisecond))
			}
			return o
		}}
		w.cl = dcl.New(w.conf)
		for j := 0; j < n; j++ {
			w.live[dcl.ID(j)] = true
		}
		var keys []string
		for k := 0; k < nkeys; k++ {
			key := fmt.Sprint("k", k)
			keys = append(keys, key)
			if err := w.cl.Any(g).DM.Set(ctx, dcl.Item(key, "v0", time.Hour)); err != nil {
				r.Violate("set", "%s: %v", w.label, err)
			}
		}
		stop := make(chan struct{})
		var wg, guarded sync.WaitGroup
		guarded.Add(1)
		go w.guard(keys, stop, &guarded)
		quiet := make(chan struct{})
		var acked sync.Map // key -> highest sequence number acknowledged
		var seq atomic.Int64
		for c := 0; c < writers; c++ {
			wg.Add(1)
			lg := rand.New(rand.NewSource(g.Int63()))
			go func() {
				defer wg.Done()
				for {
					select {
					case <-quiet:
						return
					default:
					}
					ms := w.members()
					key := keys[lg.Intn(len(keys))]
					s := seq.Add(1)
					if ms[lg.Intn(len(ms))].DM.Set(ctx, dcl.Item(key, fmt.Sprint("w", s), time.Hour)) == nil {
						acked.Store(key, s)
						r.Add("writes-acknowledged", 1)
					}
					time.Sleep(time.Duration(lg.Intn(500)) * time.Microsecond)
				}
			}()
		}
		want := map[string]uint64{}
		bad, unsettled := false, false
		rest := func(ok bool) bool {
			if !spaced && !ok {
				time.Sleep(20 * time.Millisecond)
				w.sync()
				r.Add("anti-entropy-rounds", 1)
			}
			return false
		}
		for ev := 0; ev < 2+g.Intn(4) && !bad; ev++ {
			ms := w.members()
			kind := g.Intn(3)
			if kind == 2 && unsettled {
				kind = 1
			}
			if len(ms) == 1 {
				kind = 0
			}
			fast := !spaced && g.Intn(2) == 0 // the next change comes before this one has settled
			switch kind {
			case 0:
				w.join(g, lag)
			case 1: // orderly: keeps running until it has handed over
				id := ms[g.Intn(len(ms))].ID
				w.leave(g, id, false, lag)
			default: // a crash loses what only this node had
				id := ms[g.Intn(len(ms))].ID
				w.leave(g, id, true, lag)
				fast = false
			}
			unsettled = fast
			r.Seen("events", fmt.Sprint(kind, len(ms), rf, fast))
			if fast {
				continue
			}
			if kind == 2 { // a fresh survey: only what survives counts
				want = map[string]uint64{}
			}
			w.newest(keys, want)
			why, ok := "", false
			if spaced {
				time.Sleep(20 * time.Millisecond)
			}
			if !dcl.Eventually(15*time.Second, func() bool { why, ok = w.settled(keys, want); return ok || rest(ok) }) {
				r.ViolateWith("not-moved", w.history(), "%s: 15 s after the last change of membership %s", w.label, why)
				bad = true
			}
			for _, k := range keys {
				r.Case(fmt.Sprint("moves", i, ev, k), want[k] > 0)
			}
		}
		close(quiet)
		wg.Wait()
		if !bad {
			w.newest(keys, want)
			why, ok := "", false
			if !dcl.Eventually(15*time.Second, func() bool { why, ok = w.settled(keys, want); return ok || rest(ok) }) {
				r.ViolateWith("not-moved", w.history(), "%s: 15 s after all changes %s", w.label, why)
				bad = true
			}
			for _, k := range keys {
				if want[k] == 0 && rf > 1 && !crashed(w.log) {
					r.ViolateWith("lost", w.history(), "%s: no member has %s any more although nobody crashed", w.label, k)
				}
			}
			for _, nd := range w.members() {
				for _, k := range keys {
					it, ok := nd.DM.Get(ctx, k)
					if ok != (want[k] > 0) || ok && it.Version < want[k] {
						r.ViolateWith("unreadable", w.history(), "%s: after everything a read of %s via %s gives %v %v; version %d survived", w.label, k, nd.ID, it, ok, want[k])
					}
				}
			}
			// Those that lost a key, or left, have let go of it; the steady state is quiet.
			if !dcl.Eventually(15*time.Second, func() bool {
				for _, nd := range w.members() {
					for _, k := range keys {
						if _, ok := w.cl.Local(nd.ID, k); ok && !dcl.Has(w.owners(k), nd.ID) {
							why = fmt.Sprintf("%s still holds %s, which %v own", nd.ID, k, w.owners(k))
							return false
						}
					}
				}
				return true
			}) {
				r.ViolateWith("not-shed", w.history(), "%s: 15 s after all changes %s", w.label, why)
			}
		}
		close(stop)
		guarded.Wait()
		w.cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

func crashed(log []string) bool {
	for _, l := range log {
		if len(l) > 6 && l[len(l)-6:] == " true)" {
			return true
		}
	}
	return false
}

// grace: a key lost to others stays for at least the grace and goes afterwards; one that comes back meanwhile stays.
func grace(r *kit.Run) {
	if !r.Phase("grace") {
		return
	}
	for i := 0; i < r.N(24, 300); i++ {
		g := r.Rand("grace", i)
		period := time.Duration(30+g.Intn(50)) * time.Millisecond
		rf := 1 + g.Intn(2)
		w := &world{r: r, live: map[string]bool{"n0": true, "n1": true}, next: 2}
		w.label = fmt.Sprintf("replication %d, grace %v", rf, period)
		w.conf = dcl.Conf{N: 2, RF: rf, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistRebalanceInterval(time.Millisecond), backend.WithDistRemovalGrace(period)}
		}}
		w.cl = dcl.New(w.conf)
		var keys []string
		for k := 0; k < 20; k++ {
			keys = append(keys, fmt.Sprint("k", k))
			_ = w.cl.Any(g).DM.Set(ctx, dcl.Item(keys[k], "v", time.Hour))
		}
		had := map[string]bool{}
		for _, n := range w.cl.Nodes {
			for _, k := range keys {
				if _, ok := w.cl.Local(n.ID, k); ok {
					had[n.ID+k] = true
				}
			}
		}
		back := g.Intn(2) == 0
		began := time.Now()
		w.join(g, 0)
		look := func() {
			for id, when := range map[string]time.Time{"n0": began, "n1": began} {
				for _, k := range keys {
					_, ok := w.cl.Local(id, k)
					if at := time.Since(when); had[id+k] && !ok && at < period {
						r.ViolateWith("early", w.history(), "%s: %s lost %s to others and dropped it %v later", w.label, id, k, at)
						had[id+k] = false
					}
					r.Case(fmt.Sprint("grace", i, id, k), had[id+k])
				}
			}
		}
		half := began.Add(period / 2)
		for time.Now().Before(half) {
			look()
			time.Sleep(time.Millisecond)
		}
		if back { // the newcomer goes again: everything is as before, whatever grace had begun
			w.leave(g, "n2", true, 0)
			time.Sleep(period)
			for _, id := range []string{"n0", "n1"} {
				for _, k := range keys {
					if _, ok := w.cl.Local(id, k); had[id+k] && !ok {
						r.ViolateWith("dropped-own", w.history(), "%s: %s lost %s to a newcomer, got it back when that left within the grace, and dropped it", w.label, id, k)
					}
				}
			}
			// Lost once more, the full grace runs anew.
			began = time.Now()
			w.join(g, 0)
			for time.Since(began) < period*3/4 {
				look()
				time.Sleep(time.Millisecond)
			}
		}
		look()
		var why string
		if !dcl.Eventually(15*time.Second, func() bool {
			for _, nd := range w.members() {
				for _, k := range keys {
					if _, ok := w.cl.Local(nd.ID, k); ok != dcl.Has(w.owners(k), nd.ID) {
						why = fmt.Sprintf("%s holds %s: %v, owners are %v", nd.ID, k, ok, w.owners(k))
						return false
					}
				}
			}
			return true
		}) {
			r.ViolateWith("not-shed", w.history(), "%s: 15 s later %s", w.label, why)
		}
		w.cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}
