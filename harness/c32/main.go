// C32: replicas only move forward and converge to the newest version.
//
// Oracle: the state a node holds for a key - a live copy or a delete marker, with version and origin - is read past
// the network and compared with the order the documentation gives (higher version first, a delete marker beats a copy
// of the same version, then the smaller origin). One monitor knows every message a node was given and demands the
// greatest; the other polls all nodes of a cluster under load and faults and demands that no state ever moves back,
// then heals the network, synchronises and demands one and the same newest state on all owners.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

func main() {
	kit.Main("C32", "a state of a replica compared with the states and messages before it", func(r *kit.Run) {
		delivered(r)
		single(r)
		race(r)
		converge(r)
	})
}

// state of a key on a node.
type state struct {
	V    uint64
	O    string
	Dead bool
	Val  any
}

func (s state) String() string {
	if s.V == 0 {
		return "nothing"
	}
	if s.Dead {
		return fmt.Sprintf("deleted at %d/%s", s.V, s.O)
	}
	return fmt.Sprintf("%v at %d/%s", s.Val, s.V, s.O)
}

// before reports whether b supersedes a.
func before(a, b state) bool {
	switch {
	case a.V != b.V:
		return a.V < b.V
	case a.Dead != b.Dead:
		return b.Dead
	case a.Dead:
		return false // two markers of one version are the same to everybody
	}
	return b.O < a.O
}

// look reads a node's state; a key that is just being rewritten over its delete marker may look absent for a moment.
func look(cl *dcl.Cluster, node, key string) state {
	for try := 0; ; try++ {
		it, ok, err := cl.Net.In.ForwardGet(ctx, node, key)
		switch {
		case err != nil:
			return state{}
		case it != nil:
			return state{V: it.Version, O: it.Origin, Dead: !ok, Val: dcl.Plain(it.Value)}
		case try >= 20:
			return state{}
		}
	}
}

// --- every order of delivery, one node at a time ---

func delivered(r *kit.Run) {
	if !r.Phase("delivered") {
		return
	}
	for i := 0; i < r.N(400, 12000); i++ {
		g := r.Rand("delivered", i)
		keys := 1 + g.Intn(3)
		if i%8 == 0 {
			keys = 20 + g.Intn(200)
		}
		peers := 1 + g.Intn(4)
		chunk := 1 << g.Intn(8)
		cl := dcl.New(dcl.Conf{N: 1 + peers, RF: 1 + peers, HTTP: i%20 == 7, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{
				backend.WithDistMerkleChunkSize(chunk), backend.WithDistReadConsistency(dcl.Levels[dcl.LevelNames[g.Intn(3)]]),
				backend.WithDistParallelReads(g.Intn(2) == 0),
			}
		}})
		target := cl.Nodes[0]
		maxV := uint64(1 + g.Intn(8))
		// What the peers hold: copies put there directly, markers by removals that reach nobody else.
		held := map[string]map[string]state{} // peer, key
		for p := 1; p <= peers; p++ {
			id := dcl.ID(p)
			held[id] = map[string]state{}
			for k := 0; k < keys; k++ {
				key := fmt.Sprintf("k%d", k)
				if g.Intn(3) == 0 {
					continue
				}
				v := 1 + uint64(g.Intn(int(maxV)))
				s := state{V: v, O: string(rune('a' + g.Intn(3)))}
				s.Val = fmt.Sprint(s.O, s.V) // one version of one origin is one write
				cl.Node(id).DM.DebugInject(&cache.Item{Key: key, Value: s.Val, Version: s.V, Origin: s.O, LastUpdated: time.Now()})
				held[id][key] = s
			}
		}
		for p := 1; p <= peers; p++ {
			if g.Intn(2) == 0 {
				continue
			}
			id := dcl.ID(p)
			for k := 0; k < keys; k++ {
				key := fmt.Sprintf("k%d", k)
				if g.Intn(4) != 0 {
					continue
				}
				// Removed at this peer alone, as by a removal it was the only owner to hear of.
				if err := cl.Net.In.ForwardRemove(ctx, id, key, false); err != nil {
					r.Violate("remove", "removal applied on one owner = %v", err)
				}
				held[id][key] = look(cl, id, key)
				if !held[id][key].Dead {
					r.Violate("marker", "after a removal on %s it shows %v for %s", id, held[id][key], key)
				}
			}
		}
		var log []string
		now := map[string]state{}
		raise := func(key string, s state) {
			if before(now[key], s) {
				now[key] = s
			}
		}
		check := func(what string) bool {
			for k := 0; k < keys; k++ {
				key := fmt.Sprintf("k%d", k)
				got, want := look(cl, target.ID, key), now[key]
				r.Case(fmt.Sprint(i, len(log), key), want.V > 0)
				if got.V != want.V || got.Dead != want.Dead || !got.Dead && (got.O != want.O || got.Val != want.Val) {
					r.ViolateWith("delivered", log, "%s: the node holds %v for %s, the newest it was given is %v (chunk size %d, %d keys)", what, got, key, want, chunk, keys)
					return false
				}
			}
			return true
		}
		for step := 0; step < 12; step++ {
			key := fmt.Sprintf("k%d", g.Intn(keys))
			id := dcl.ID(1 + g.Intn(peers))
			what := ""
			switch g.Intn(6) {
			case 0, 1, 2: // a copy of a write arrives, new or stale
				v := 1 + uint64(g.Intn(int(maxV)+2))
				s := state{V: v, O: string(rune('a' + g.Intn(3)))}
				s.Val = fmt.Sprint(s.O, s.V)
				if h, ok := held[id][key]; ok && !h.Dead && g.Intn(2) == 0 {
					s = h
				}
				tr := backend.DistTransport(cl.Net.In)
				if g.Intn(2) == 0 {
					tr = &dcl.T{Net: cl.Net, From: id}
				}
				err := tr.ForwardSet(ctx, target.ID, &cache.Item{Key: key, Value: s.Val, Version: s.V, Origin: s.O, LastUpdated: time.Now()}, false)
				what = fmt.Sprintf("write of %s: %v (%v)", key, s, err)
				if err == nil && (before(s, now[key])) {
					r.ViolateWith("stale-accepted", log, "the node answers a stale copy (%v, it holds %v) as if it had stored it", s, now[key])
				}
				if err != nil && before(now[key], s) {
					r.ViolateWith("newer-refused", log, "the node refuses %v although it holds %v: %v", s, now[key], err)
				}
				raise(key, s)
			case 3, 4:
				err := target.DM.SyncWith(ctx, id)
				what = fmt.Sprintf("sync with %s: %v", id, err)
				if err != nil {
					r.ViolateWith("sync", log, "SyncWith(%s) = %v with every node up", id, err)
				}
				for k, s := range held[id] {
					if s.Dead && now[k].V == 0 { // a node that knows nothing of the key may learn of its removal or not
						if got := look(cl, target.ID, k); got.V == 0 {
							continue
						}
					}
					raise(k, s)
				}
			case 5: // the target's own repetition of what it holds
				cur := now[key]
				if cur.V == 0 || cur.Dead {
					continue
				}
				_ = cl.Net.In.ForwardSet(ctx, target.ID, &cache.Item{Key: key, Value: cur.Val, Version: cur.V, Origin: cur.O, LastUpdated: time.Now()}, false)
				what = "repeated " + key
			}
			log = append(log, what)
			r.Add("messages", 1)
			if !check(what) {
				break
			}
		}
		r.Seen("setups", fmt.Sprint(keys > 10, peers, chunk, i%20 == 7))
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// single: two nodes agree on everything but one key; one synchronisation repairs it, whatever the number of keys, the
// chunking and the place of the key among them.
func single(r *kit.Run) {
	if !r.Phase("single") {
		return
	}
	most := r.N(19, 70)
	i := 0
	for n := 1; n <= most; n++ {
		for _, chunk := range []int{1, 2, 3, 7} {
			g := r.Rand("single", n, chunk)
			at := []int{0, n - 1, g.Intn(n)}
			if !r.Quick() {
				at = g.Perm(n)
			}
			for _, p := range at {
				i++
				kind := i % 4
				cl := dcl.New(dcl.Conf{N: 2, RF: 2, HTTP: i%40 == 11, Opts: func(int) []backend.DistMemoryOption {
					return []backend.DistMemoryOption{backend.WithDistMerkleChunkSize(chunk)}
				}})
				a, b := cl.Nodes[0], cl.Nodes[1]
				key := func(k int) string { return fmt.Sprintf("key%03d", k) }
				put := func(nd *dcl.Node, k int, v uint64) {
					nd.DM.DebugInject(&cache.Item{Key: key(k), Value: fmt.Sprint("w", k, v), Version: v, Origin: "x", LastUpdated: time.Now()})
				}
				for k := 0; k < n; k++ {
					put(a, k, 3)
					if k == p && kind == 1 {
						continue // the other node never heard of it
					}
					put(b, k, 3)
				}
				switch kind {
				case 0:
					put(a, p, 4)
				case 2:
					put(a, p, 1) // nothing to fetch: the peer is behind
				case 3:
					cl.Net.Cut(a.ID, b.ID, true)
					_ = a.DM.Remove(ctx, key(p))
					cl.Net.Heal()
				}
				want := look(cl, a.ID, key(p))
				if kind == 2 {
					want = look(cl, b.ID, key(p))
				}
				if kind == 3 && !want.Dead {
					r.Inconclusive("the removal left no marker")
				} else if err := b.DM.SyncWith(ctx, a.ID); err != nil {
					r.Violate("sync", "%d keys, chunks of %d: SyncWith = %v", n, chunk, err)
				} else if got := look(cl, b.ID, key(p)); got.V != want.V || got.Dead != want.Dead || got.Val != want.Val {
					r.Violate("missed", "%d keys in chunks of %d, the nodes differ only in key %d (%s): after synchronising %s holds %v, want %v", n, chunk, p,
						[]string{"newer at the peer", "only at the peer", "older at the peer", "removed at the peer"}[kind], b.ID, got, want)
				}
				r.Case(fmt.Sprint("single", n, chunk, p, kind), n > 1)
				cl.Stop()
				if r.Violations() > 3 {
					return
				}
			}
		}
	}
}

// race: the same messages in parallel; the state only moves forward and ends at the greatest.
func race(r *kit.Run) {
	if !r.Phase("race") {
		return
	}
	for i := 0; i < r.N(120, 3000); i++ {
		g := r.Rand("race", i)
		cl := dcl.New(dcl.Conf{N: 2, RF: 2})
		top := state{}
		type msg struct {
			s   state
			rem bool
		}
		var msgs []msg
		for n := 0; n < 60; n++ {
			v := 1 + uint64(g.Intn(30))
			s := state{V: v, O: string(rune('a' + g.Intn(4)))}
			s.Val = fmt.Sprint(s.V, s.O)
			msgs = append(msgs, msg{s: s})
			if before(top, s) {
				top = s
			}
		}
		removes := g.Intn(2) == 0
		stop := make(chan struct{})
		var sampled sync.WaitGroup
		var sample sync.Mutex
		last := state{}
		for w := 0; w < 2; w++ {
			sampled.Add(1)
			go func() {
				defer sampled.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					sample.Lock()
					s := look(cl, "n0", "k")
					if before(s, last) {
						r.Violate("backwards", "a node given copies in parallel goes from %v to %v", last, s)
					}
					if s != last {
						r.Add("transitions", 1)
					}
					last = s
					sample.Unlock()
				}
			}()
		}
		var wg sync.WaitGroup
		for w := 0; w < 6; w++ {
			wg.Add(1)
			lg := rand.New(rand.NewSource(g.Int63()))
			go func() {
				defer wg.Done()
				for _, x := range lg.Perm(len(msgs)) {
					m := msgs[x]
					_ = cl.Net.In.ForwardSet(ctx, "n0", &cache.Item{Key: "k", Value: m.s.Val, Version: m.s.V, Origin: m.s.O}, false)
					if removes && lg.Intn(20) == 0 {
						_ = cl.Net.In.ForwardRemove(ctx, "n0", "k", false)
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		sampled.Wait()
		got := look(cl, "n0", "k")
		switch {
		case !removes && (got.V != top.V || got.O != top.O || got.Val != top.Val):
			r.Violate("race-final", "after copies up to %v in parallel the node holds %v", top, got)
		case removes && before(got, top):
			r.Violate("race-final", "after copies up to %v and removals in parallel the node holds the older %v", top, got)
		case !got.Dead && got.Val != fmt.Sprint(got.V, got.O):
			r.Violate("race-mixed", "the node holds %v, which nobody sent", got)
		}
		r.Case(fmt.Sprint("race", i), true)
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}

// --- clusters under load and faults ---

func converge(r *kit.Run) {
	if !r.Phase("converge") {
		return
	}
	for i := 0; i < r.N(90, 2200); i++ {
		g := r.Rand("converge", i)
		n := 2 + g.Intn(4)
		rf := 2 + g.Intn(min(n, 4)-1)
		w, rd := dcl.LevelNames[g.Intn(3)], dcl.LevelNames[g.Intn(3)]
		hints, auto, batch, par := g.Intn(2) == 0, g.Intn(4) == 0, g.Intn(3) == 0, g.Intn(2) == 0
		chunk := 1 << g.Intn(6)
		http := i%15 == 4
		nkeys := 1 + g.Intn(6)
		label := fmt.Sprintf("%d nodes, replication %d, write %s, read %s, hints %v, auto sync %v, repair batch %v, chunk %d, HTTP %v", n, rf, w, rd, hints, auto, batch, chunk, http)
		cl := dcl.New(dcl.Conf{N: n, RF: rf, HTTP: http, Shared: g.Intn(5) == 0, Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{
				backend.WithDistWriteConsistency(dcl.Levels[w]), backend.WithDistReadConsistency(dcl.Levels[rd]),
				backend.WithDistParallelReads(par), backend.WithDistMerkleChunkSize(chunk),
			}
			if hints {
				o = append(o, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(2*time.Millisecond))
			}
			if auto {
				o = append(o, backend.WithDistMerkleAutoSync(3*time.Millisecond))
			}
			if batch {
				o = append(o, backend.WithDistReadRepairBatch(time.Millisecond, 4))
			}
			return o
		}})
		cl.Net.Generic.Store(g.Intn(2) == 0)
		keys := make([]string, nkeys)
		for k := range keys {
			keys[k] = fmt.Sprintf("k%d", k)
		}

		// The sampler.
		type cell struct {
			sync.Mutex
			last state
		}
		cells := map[string]*cell{}
		for _, nd := range cl.Nodes {
			for _, k := range keys {
				cells[nd.ID+k] = &cell{}
			}
		}
		sampleOne := func(node, key string) state {
			c := cells[node+key]
			c.Lock()
			defer c.Unlock()
			s := look(cl, node, key)
			if before(s, c.last) {
				r.Violate("backwards", "%s: %s goes from %v to %v for %s", label, node, c.last, s, key)
			}
			if s.V == c.last.V && s.O == c.last.O && !s.Dead && !c.last.Dead && s.Val != c.last.Val {
				r.Violate("same-version", "%s: %s holds %v for %s, then %v", label, node, c.last, key, s)
			}
			if s != c.last {
				r.Add("transitions", 1)
			}
			c.last = s
			return s
		}
		stop := make(chan struct{})
		var sampled sync.WaitGroup
		sampled.Add(1)
		go func() {
			defer sampled.Done()
			for {
				for _, nd := range cl.Nodes {
					for _, k := range keys {
						sampleOne(nd.ID, k)
					}
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		cl.Net.Watch(func(c dcl.Call) {
			if c.Op == "set" || c.Op == "remove" {
				if cells[c.To+c.Key] != nil {
					sampleOne(c.To, c.Key)
				}
			}
		})
		dg := rand.New(rand.NewSource(g.Int63()))
		var dmu sync.Mutex
		rough := g.Intn(3)
		cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) {
			dmu.Lock()
			defer dmu.Unlock()
			if rough == 0 || c.Op == "health" {
				return false, false, 0
			}
			switch dg.Intn(10) {
			case 0:
				return true, false, 0
			case 1:
				return false, true, 0
			case 2, 3:
				return false, false, time.Duration(dg.Intn(1500)) * time.Microsecond
			}
			return false, false, 0
		})

		// The clients, and somebody who breaks and mends the network.
		type ack struct{ key, val string }
		var amu sync.Mutex
		var acks []ack
		var seq atomic.Int64
		removals := g.Intn(2) == 0
		var wg sync.WaitGroup
		for c := 0; c < 4; c++ {
			wg.Add(1)
			lg := rand.New(rand.NewSource(g.Int63()))
			go func() {
				defer wg.Done()
				for s := 0; s < 15; s++ {
					nd := cl.Any(lg)
					key := keys[lg.Intn(len(keys))]
					switch x := lg.Intn(10); {
					case x < 6:
						val := fmt.Sprint("v", seq.Add(1))
						if nd.DM.Set(ctx, dcl.Item(key, val, time.Hour)) == nil {
							amu.Lock()
							acks = append(acks, ack{key, val})
							amu.Unlock()
						}
					case x == 6 && removals:
						_ = nd.DM.Remove(ctx, key)
					default:
						nd.DM.Get(ctx, key)
					}
				}
			}()
		}
		chaos := make(chan struct{})
		go func() {
			defer close(chaos)
			lg := rand.New(rand.NewSource(g.Int63()))
			for x := 0; x < 6; x++ {
				cl.Faults(lg, lg.Intn(2), lg.Intn(3))
				time.Sleep(time.Duration(200+lg.Intn(800)) * time.Microsecond)
			}
		}()
		wg.Wait()
		<-chaos
		cl.Net.Calm()
		cl.Net.Heal()

		// What the nodes hold now, and what synchronisation has to bring about.
		newest := map[string]state{}
		note := func() {
			for _, nd := range cl.Nodes {
				for _, k := range keys {
					if s := sampleOne(nd.ID, k); before(newest[k], s) {
						newest[k] = s
					}
				}
			}
		}
		note()
		if err := cl.SyncAll(2); err != nil {
			r.Violate("sync", "%s: synchronising on a healed network = %v", label, err)
		}
		if hints || batch || auto {
			time.Sleep(10 * time.Millisecond) // background work may still bring something newer
			_ = cl.SyncAll(2)
		}
		close(stop)
		sampled.Wait()
		note()
		for _, key := range keys {
			want := newest[key]
			for _, o := range cl.Owners(key) {
				got := look(cl, o, key)
				r.Case(fmt.Sprint("converge", i, key, o), want.V > 0)
				if got.V == 0 && want.Dead { // removed, and this owner never knew it
					continue
				}
				if got.V != want.V || got.Dead != want.Dead || !got.Dead && (got.O != want.O || got.Val != want.Val) {
					r.Violate("diverged", "%s: after healing and synchronising, owner %s of %s holds %v, the newest version in the cluster is %v", label, o, key, got, want)
				}
			}
		}
		for _, nd := range cl.Nodes { // and a read through anybody agrees
			for _, key := range keys {
				it, ok := nd.DM.Get(ctx, key)
				want := newest[key]
				if ok != (want.V > 0 && !want.Dead) || ok && dcl.Plain(it.Value) != want.Val {
					r.Violate("read-diverged", "%s: after healing and synchronising, a read of %s via %s gives %v %v; the newest is %v", label, key, nd.ID, it, ok, want)
				}
			}
		}
		// An acknowledged write is the newest or older than it.
		r.Add("acknowledged", int64(len(acks)))
		for _, a := range acks {
			if newest[a.key].V == 0 {
				r.Violate("lost", "%s: %s=%s was acknowledged; nobody knows %s any more", label, a.key, a.val, a.key)
			}
		}
		if !removals { // then the survivor is a value somebody wrote
			for k, s := range newest {
				if s.Dead {
					r.Violate("phantom-removal", "%s: %s is %v although nobody removed it", label, k, s)
				}
			}
		}
		r.Seen("setups", fmt.Sprint(rf, w, rd, hints, auto, batch, http, rough, removals))
		cl.Stop()
		if r.Violations() > 3 {
			return
		}
	}
}
