// C02: membership and ring stay coherent under concurrent change.
package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
)

type change struct {
	id  cluster.NodeID
	st  cluster.NodeState
	ver uint64
}

var keys = func() []string {
	var k []string
	for i := 0; i < 60; i++ {
		k = append(k, fmt.Sprintf("key-%d", i))
	}
	return k
}()

func main() {
	kit.Main("C02", "rounds of 2..6 goroutines mutating one membership (upsert/remove/mark/refute/list/lookup/version) behind a barrier under the race detector, "+
		"then the ring is compared with a fresh ring of the listed non-dead members; plus sequential histories against a reference model; non-trivial = at least two concurrent mutations, or a history of at least 5 changes", run)
}

func run(r *kit.Run) {
	if r.Phase("sequential") {
		for i := 0; i < r.N(1500, 20000); i++ {
			sequential(r, r.Rand("seq", i), i)
		}
	}
	if r.Phase("concurrent") {
		deadline := time.Now().Add(time.Duration(r.N(12, 240)) * time.Second)
		for i := 0; i < r.N(4000, 100000) && time.Now().Before(deadline); i++ {
			concurrent(r, r.Rand("conc", i), i)
		}
	}
	if r.Phase("observer-reentry") {
		observers(r)
	}
	if r.Phase("version-counter") {
		counter(r)
	}
}

// fresh is the ring a correct view must equal.
func fresh(m *cluster.Membership, rf, vn int) (*cluster.Ring, []string) {
	ring := cluster.NewRing(cluster.WithReplication(rf), cluster.WithVirtualNodes(vn))
	var in []*cluster.Node
	var ids []string
	for _, n := range m.List() {
		if n.State != cluster.NodeDead {
			in = append(in, n)
		}
		ids = append(ids, fmt.Sprintf("%s/%s", n.ID, n.State))
	}
	ring.Build(in)
	sort.Strings(ids)
	return ring, ids
}

func coherent(r *kit.Run, m *cluster.Membership, rf, vn int, where string, wit any) bool {
	ref, ids := fresh(m, rf, vn)
	for _, k := range keys {
		a, b := m.Ring().Lookup(k), ref.Lookup(k)
		if !slices.Equal(a, b) {
			r.ViolateWith("ring-stale-"+where, wit, "after all mutations returned, members are %v but key %s is placed on %v instead of %v", ids, k, a, b)
			return false
		}
	}
	return true
}

func sequential(r *kit.Run, rng *rand.Rand, i int) {
	rf, vn := 1+rng.Intn(4), 8
	m := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(rf), cluster.WithVirtualNodes(vn)))
	type ent struct {
		st   cluster.NodeState
		inc  uint64
		addr string
		seen time.Time
	}
	model := map[string]*ent{}
	var ver uint64
	var got, want [2][]change
	nobs := 1 + rng.Intn(2)
	for o := 0; o < nobs; o++ {
		m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) { got[o] = append(got[o], change{id, st, v}) })
	}
	m.OnStateChange(nil)
	note := func(id string, st cluster.NodeState) {
		ver++
		for o := 0; o < nobs; o++ {
			want[o] = append(want[o], change{cluster.NodeID(id), st, ver})
		}
	}
	var log []string
	n := 5 + rng.Intn(25)
	for s := 0; s < n; s++ {
		id := fmt.Sprintf("n%d", rng.Intn(5))
		e := model[id]
		before := time.Now()
		switch op := rng.Intn(13); {
		case op >= 10 && op < 12:
			nd := &cluster.Node{ID: cluster.NodeID(id), Address: fmt.Sprintf("g:%d", s), State: cluster.NodeState(rng.Intn(3)), Incarnation: uint64(rng.Intn(12))}
			log = append(log, fmt.Sprintf("merge %s %s inc %d", id, nd.State, nd.Incarnation))
			newer := e == nil || nd.Incarnation > e.inc
			if ok := m.Merge(nd); ok != newer {
				r.ViolateWith("merge-result", log, "merge of a claim about %s returned %v, newer=%v", id, ok, newer)
			}
			if newer {
				model[id] = &ent{nd.State, nd.Incarnation, nd.Address, before}
				note(id, nd.State)
			}
			nd.State, nd.Incarnation = cluster.NodeDead, 1<<50 // the caller's node is not the member
		case op == 12:
			inc := uint64(rng.Intn(12))
			log = append(log, fmt.Sprintf("refute claim %s inc %d", id, inc))
			want := e != nil && inc >= e.inc
			if ok := m.RefuteClaim(cluster.NodeID(id), inc); ok != want {
				r.ViolateWith("refute-result", log, "refuting a claim about %s returned %v, want %v", id, ok, want)
			}
			if want {
				e.st, e.seen, e.inc = cluster.NodeAlive, before, inc+1
				note(id, cluster.NodeAlive)
			}
		case op < 3:
			nd := &cluster.Node{ID: cluster.NodeID(id), Address: fmt.Sprintf("h:%d", s), State: cluster.NodeState(rng.Intn(3)), Incarnation: uint64(rng.Intn(9))}
			log = append(log, fmt.Sprintf("upsert %s %s inc %d", id, nd.State, nd.Incarnation))
			st, inc, addr := nd.State, nd.Incarnation, nd.Address
			m.Upsert(nd)
			model[id] = &ent{st, inc, addr, before}
			note(id, st)
		case op < 4:
			log = append(log, "remove "+id)
			ok := m.Remove(cluster.NodeID(id))
			if ok != (e != nil) {
				r.ViolateWith("remove-result", log, "remove of %s returned %v, known=%v", id, ok, e != nil)
			}
			if e != nil {
				delete(model, id)
				note(id, cluster.NodeDead)
			}
		case op < 8:
			st := cluster.NodeState(rng.Intn(3))
			log = append(log, fmt.Sprintf("mark %s %s", id, st))
			ok := m.Mark(cluster.NodeID(id), st)
			if ok != (e != nil) {
				r.ViolateWith("mark-result", log, "mark of %s returned %v, known=%v", id, ok, e != nil)
			}
			if e != nil {
				e.seen = before
				if e.st != st {
					e.st = st
					e.inc++
					note(id, st)
				}
			}
		default:
			log = append(log, "refute "+id)
			ok := m.Refute(cluster.NodeID(id))
			if ok != (e != nil) {
				r.ViolateWith("refute-result", log, "refute of %s returned %v, known=%v", id, ok, e != nil)
			}
			if e != nil {
				e.st, e.seen = cluster.NodeAlive, before
				e.inc++
				note(id, cluster.NodeAlive)
			}
		}
		if v := m.Version(); v != ver {
			r.ViolateWith("version-count", log, "membership version is %d after %d real changes", v, ver)
			return
		}
		ls := m.List()
		if len(ls) != len(model) {
			r.ViolateWith("list", log, "list has %d members, model %d", len(ls), len(model))
			return
		}
		for _, x := range ls {
			w := model[string(x.ID)]
			if w == nil || x.State != w.st || x.Incarnation != w.inc || x.Address != w.addr {
				r.ViolateWith("list", log, "member listed as %+v, model %+v", *x, w)
				return
			}
			if x.LastSeen.Before(w.seen.Add(-time.Millisecond)) {
				r.ViolateWith("last-seen", log, "member %s last seen %v, but was observed at %v", x.ID, x.LastSeen, w.seen)
				return
			}
			// vandalise the snapshot: it must be a copy
			x.State, x.Incarnation, x.Address = cluster.NodeDead, 1<<60, "vandal"
		}
		if !coherent(r, m, rf, vn, "sequential", log) {
			return
		}
	}
	for o := 0; o < nobs; o++ {
		if !slices.Equal(got[o], want[o]) {
			r.ViolateWith("observer-sequence", log, "observer %d saw %v, expected %v", o, got[o], want[o])
		}
	}
	r.Case(fmt.Sprint(log), len(want[0]) >= 5)
	r.Add("sequential_changes", int64(len(want[0])))
	if i == 0 {
		r.Sample("history", log)
	}
}

func concurrent(r *kit.Run, rng *rand.Rand, i int) {
	rf := 1 + rng.Intn(3)
	vn := []int{1, 8, 64, 250}[rng.Intn(4)]
	m := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(rf), cluster.WithVirtualNodes(vn)))
	var omu sync.Mutex
	var seen []change
	m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
		omu.Lock()
		seen = append(seen, change{id, st, v})
		omu.Unlock()
	})
	ids := 2 + rng.Intn(4)
	for k := 0; k < rng.Intn(ids+1); k++ {
		m.Upsert(cluster.NewNode(fmt.Sprintf("n%d", k), "a:1"))
	}
	g := 2 + rng.Intn(5)
	ops := 1 + rng.Intn(4)
	if rng.Intn(5) == 0 {
		ops = 30
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	var effective atomic.Int64 // lower bound on changes: upserts, removes that hit, refutes that hit
	logs := make([][]string, g)
	plan := make([]*rand.Rand, g)
	for w := range plan {
		plan[w] = rand.New(rand.NewSource(rng.Int63()))
	}
	muts := 0
	for w := 0; w < g; w++ {
		wg.Add(1)
		type step struct {
			op int
			id cluster.NodeID
			st cluster.NodeState
		}
		steps := make([]step, ops)
		for s := range steps {
			steps[s] = step{plan[w].Intn(15), cluster.NodeID(fmt.Sprintf("n%d", plan[w].Intn(ids))), cluster.NodeState(plan[w].Intn(3))}
			if steps[s].op < 9 || steps[s].op >= 12 {
				muts++
			}
			logs[w] = append(logs[w], fmt.Sprintf("%d:%s:%s", steps[s].op, steps[s].id, steps[s].st))
		}
		go func() {
			defer wg.Done()
			<-start
			var last uint64
			for _, s := range steps {
				switch {
				case s.op < 4:
					m.Upsert(&cluster.Node{ID: s.id, Address: "a:1", State: s.st, Incarnation: 1})
					effective.Add(1)
				case s.op < 6:
					if m.Remove(s.id) {
						effective.Add(1)
					}
				case s.op < 8:
					m.Mark(s.id, s.st)
				case s.op < 9:
					if m.Refute(s.id) {
						effective.Add(1)
					}
				case s.op >= 12 && s.op < 14:
					if m.Merge(&cluster.Node{ID: s.id, Address: "a:1", State: s.st, Incarnation: last + uint64(s.op)}) {
						effective.Add(1)
					}
				case s.op == 14:
					if m.RefuteClaim(s.id, last) {
						effective.Add(1)
					}
				case s.op < 10:
					for _, n := range m.List() {
						n.State = cluster.NodeDead
						n.Incarnation = 99999
					}
				case s.op < 11:
					own := m.Ring().Lookup(keys[int(s.st)])
					if len(own) > rf {
						r.Violate("lookup-torn", "lookup during changes named %d owners, rf %d", len(own), rf)
					}
					for a := range own {
						if slices.Contains(own[:a], own[a]) {
							r.Violate("lookup-torn", "lookup during changes named duplicate owners %v", own)
						}
					}
				}
				v := m.Version()
				if v < last {
					r.Violate("version-decreased", "version went from %d to %d as seen by one goroutine", last, v)
				}
				last = v
				if s.op%3 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	coherent(r, m, rf, vn, "concurrent", logs)
	for _, n := range m.List() {
		if n.Incarnation >= 99999 {
			r.ViolateWith("snapshot-aliased", logs, "changing a listed member changed the membership: %+v", *n)
		}
	}
	omu.Lock()
	defer omu.Unlock()
	vs := make([]uint64, 0, len(seen))
	for _, c := range seen {
		vs = append(vs, c.ver)
	}
	slices.Sort(vs)
	if uint64(len(vs)) != m.Version() {
		r.ViolateWith("observer-count", logs, "version is %d but observers were told of %d changes", m.Version(), len(vs))
	} else {
		for k, v := range vs {
			if v != uint64(k+1) {
				r.ViolateWith("observer-version", logs, "observers were told versions %v: each change must carry its own", vs)
				break
			}
		}
	}
	if int64(m.Version()) < effective.Load() {
		r.ViolateWith("version-lost", logs, "version %d after at least %d changes", m.Version(), effective.Load())
	}
	// the last change of each member, by version, must be its listed state
	lastc := map[cluster.NodeID]change{}
	for _, c := range seen {
		if c.ver > lastc[c.id].ver {
			lastc[c.id] = c
		}
	}
	listed := map[cluster.NodeID]cluster.NodeState{}
	for _, n := range m.List() {
		listed[n.ID] = n.State
	}
	for id, c := range lastc {
		st, ok := listed[id]
		if ok && st != c.st {
			r.ViolateWith("observer-state", logs, "last notified change of %s (version %d) was %s but it is listed %s", id, c.ver, c.st, st)
		}
		if !ok && c.st != cluster.NodeDead {
			r.ViolateWith("observer-state", logs, "last notified change of %s (version %d) was %s but it is not a member", id, c.ver, c.st)
		}
	}
	r.Case(fmt.Sprint(logs, vn, rf), muts >= 2)
	r.Add("concurrent_mutations", int64(muts))
	r.Seen("notification_orders", fmt.Sprint(vsOrder(seen)))
	if i == 0 {
		r.Sample("round", logs)
	}
}

// vsOrder is the order in which versions reached the observer: its variety shows interleavings.
func vsOrder(c []change) []uint64 {
	var o []uint64
	for i := range c {
		if i < 6 {
			o = append(o, c[i].ver)
		}
	}
	return o
}

// observers run with the lock released: reading the membership or ring from one must not deadlock.
func observers(r *kit.Run) {
	for i := 0; i < 50; i++ {
		m := cluster.NewMembership(cluster.NewRing())
		calls := 0
		m.OnStateChange(func(cluster.NodeID, cluster.NodeState, uint64) {
			_ = m.List()
			_ = m.Version()
			_ = m.Ring().Lookup("k")
			calls++
		})
		done := make(chan struct{})
		go func() {
			m.Upsert(cluster.NewNode("a", "a:1"))
			m.Mark("a", cluster.NodeSuspect)
			m.Refute("a")
			m.Remove("a")
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			r.Violate("observer-deadlock", "an observer that reads the membership blocks the mutation that notified it")
			return
		}
		if calls != 4 {
			r.Violate("observer-count", "observer called %d times for 4 changes", calls)
		}
		r.Case(fmt.Sprint("reentry", i), true)
	}
}

func counter(r *kit.Run) {
	var mv cluster.MembershipVersion
	const g, per = 8, 2000
	got := make([][]uint64, g)
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				got[w] = append(got[w], mv.Next())
			}
		}()
	}
	wg.Wait()
	all := map[uint64]bool{}
	for _, l := range got {
		for i, v := range l {
			if all[v] || (i > 0 && v <= l[i-1]) {
				r.Violate("counter", "version %d issued twice or out of order", v)
				return
			}
			all[v] = true
		}
	}
	if mv.Get() != g*per {
		r.Violate("counter", "counter is %d after %d increments", mv.Get(), g*per)
	}
	r.Case("counter", true)
}
