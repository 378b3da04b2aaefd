// C37: failure detection finds dead peers and spares live ones.
//
// Oracle: every probe of every node is recorded as it returns, and so is every change of every node's membership. A peer
// may be dropped only if the node's last probe of it failed and none, direct or through a relay, succeeded during the
// dead window before; it has to have been suspect first; a peer that stops answering has to be gone from every living
// node's membership and ring, for good, soon after the window; one that answers again in time, or joins again, has to be
// back. The probe counters have to be the probes seen, the member counts the members.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

func main() {
	kit.Main("C37", "a removal judged against the probes before it, or a peer's fate after it crashed, hung, was cut off or came back", func(r *kit.Run) {
		live(r)
		windows(r)
		relay(r)
		restore(r)
		overHTTP(r)
	})
}

type pair struct{ at, of string }

type seen struct {
	lastOK         time.Time
	lastFailed     bool
	oks, fails     int64
	suspects, dead int64
	events         []event
}

type event struct {
	ver uint64
	st  cluster.NodeState
}

// world is a cluster with its probes and membership changes recorded.
type world struct {
	r     *kit.Run
	label string
	dead  time.Duration
	sus   time.Duration // suspicion timeout; 0 when rumours may raise suspicion too
	cl    *dcl.Cluster
	mu    sync.Mutex
	p     map[pair]*seen
	ind   map[string][2]int64 // indirect probes: ok, failed
	off   map[string]bool     // crashed: its own view does not matter
	log   []string
	t0    time.Time
	muted bool
}

func (w *world) at(a, b string) *seen {
	s := w.p[pair{a, b}]
	if s == nil {
		s = &seen{}
		w.p[pair{a, b}] = s
	}
	return s
}

func (w *world) say(f string, a ...any) {
	if len(w.log) < 4000 {
		w.log = append(w.log, fmt.Sprintf("%.1fms ", float64(time.Since(w.t0).Microseconds())/1000)+fmt.Sprintf(f, a...))
	}
}

func (w *world) tail() []string {
	if len(w.log) > 120 {
		return append([]string(nil), w.log[len(w.log)-120:]...)
	}
	return append([]string(nil), w.log...)
}

func (w *world) member(id string, m *cluster.Membership) {
	m.OnStateChange(func(of cluster.NodeID, st cluster.NodeState, ver uint64) {
		w.mu.Lock()
		defer w.mu.Unlock()
		now := time.Now()
		s := w.at(id, string(of))
		if string(of) == id || w.off[id] {
			return
		}
		w.say("%s: %s becomes %s (version %d)", id, of, st, ver)
		s.events = append(s.events, event{ver, st})
		switch st {
		case cluster.NodeSuspect:
			s.suspects++
			w.r.Add("suspicions", 1)
			if w.sus > 0 && !w.muted {
				w.r.Case("suspicion/"+w.label, true)
				if since := now.Sub(s.lastOK); !s.lastFailed && since <= w.sus {
					w.r.ViolateWith("suspected-answering", w.tail(), "%s: %s suspects %s, reached %v before and not failed since; suspicion timeout %v", w.label, id, of, since, w.sus)
				}
			}
		case cluster.NodeDead:
			s.dead++
			if w.muted {
				return
			}
			w.r.Add("removals judged", 1)
			w.r.Case("removal/"+w.label, true)
			switch {
			case !s.lastFailed:
				w.r.ViolateWith("dropped-answering", w.tail(), "%s: %s dropped %s though its last probe of it succeeded", w.label, id, of)
			case now.Sub(s.lastOK) <= w.dead:
				w.r.ViolateWith("dropped-early", w.tail(), "%s: %s dropped %s %v after a successful probe, dead window %v", w.label, id, of, now.Sub(s.lastOK), w.dead)
			}
		}
	})
}

func (w *world) call(c dcl.Call) {
	w.mu.Lock()
	defer w.mu.Unlock()
	switch {
	case c.Op == "health" && !c.Relayed:
		s := w.at(c.From, c.To)
		if c.Err == nil {
			s.lastOK, s.lastFailed = time.Now(), false
			s.oks++
		} else {
			s.lastFailed = true
			s.fails++
		}
		w.r.Add("probes", 1)
	case c.Op == "indirect":
		x := w.ind[c.From]
		if c.Err == nil {
			s := w.at(c.From, c.Key)
			s.lastOK, s.lastFailed = time.Now(), false
			x[0]++
		} else {
			x[1]++
		}
		w.ind[c.From] = x
		w.r.Add("indirect probes", 1)
	}
}

func start(r *kit.Run, label string, conf dcl.Conf, dead, sus time.Duration, gossip bool) *world {
	if gossip {
		sus = 0
	}
	w := &world{r: r, label: label, dead: dead, sus: sus, p: map[pair]*seen{}, ind: map[string][2]int64{}, off: map[string]bool{}, t0: time.Now()}
	conf.Member = w.member
	w.cl = dcl.Prepare(conf)
	w.cl.Net.Watch(w.call)
	for i := 0; i < conf.N; i++ { // none knows another before all of them answer
		w.cl.Add(conf, i, 0)
	}
	for _, a := range w.cl.Nodes {
		for j, b := range w.cl.Nodes {
			if a != b {
				a.M.Upsert(cluster.NewNode(b.ID, w.cl.Addr(j)))
			}
		}
	}
	return w
}

func (w *world) crash(id string) {
	w.mu.Lock()
	w.off[id] = true
	w.say("-- %s crashes", id)
	w.mu.Unlock()
	w.cl.Net.Down(id, true)
}

func (w *world) alive() []*dcl.Node {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*dcl.Node
	for _, n := range w.cl.Nodes {
		if !w.off[n.ID] {
			out = append(out, n)
		}
	}
	return out
}

func knows(n *dcl.Node, id string) (cluster.NodeState, bool) {
	for _, m := range n.M.List() {
		if string(m.ID) == id {
			return m.State, true
		}
	}
	return 0, false
}

// finish stops the nodes and balances the counters.
func (w *world) finish() {
	w.mu.Lock()
	w.muted = true
	w.mu.Unlock()
	for _, n := range w.cl.Nodes {
		_ = n.DM.Stop(context.Background())
	}
	w.cl.Net.Watch(func(dcl.Call) {})
	w.mu.Lock()
	defer w.mu.Unlock()
	for p, s := range w.p { // observers run outside the membership's lock, so the order is that of the versions
		sort.Slice(s.events, func(a, b int) bool { return s.events[a].ver < s.events[b].ver })
		for x, e := range s.events {
			if e.st == cluster.NodeDead && (x == 0 || s.events[x-1].st != cluster.NodeSuspect) {
				w.r.ViolateWith("dropped-unsuspected", w.tail(), "%s: %s dropped %s which it did not hold suspect: %v", w.label, p.at, p.of, s.events[:x+1])
				break
			}
		}
	}
}

// counters: what each node reports equals what was seen, at an instant without a tick under way.
func (w *world) counters(gossip bool) {
	for _, n := range w.alive() {
		var m backend.DistMetrics
		var ok, fail, sus, dead, inOK, inFail int64
		equal := func() bool {
			w.mu.Lock()
			ok, fail, sus, dead = 0, 0, 0, 0
			for p, s := range w.p {
				if p.at == n.ID {
					ok, fail, sus, dead = ok+s.oks, fail+s.fails, sus+s.suspects, dead+s.dead
				}
			}
			inOK, inFail = w.ind[n.ID][0], w.ind[n.ID][1]
			w.mu.Unlock()
			m = n.DM.Metrics()
			return m.HeartbeatSuccess == ok && m.HeartbeatFailure == fail && m.NodesDead == dead && m.NodesRemoved == dead &&
				(gossip || m.NodesSuspect == sus) && m.IndirectProbeSuccess == inOK && m.IndirectProbeFailure == inFail && m.IndirectProbeRefuted == inOK
		}
		good := dcl.Eventually(3*time.Second, equal)
		w.r.Case("counters/"+w.label, true)
		if !good {
			w.r.ViolateWith("counters", w.tail(), "%s: %s reports %d/%d probes ok/failed, %d suspected, %d dead, %d removed, indirect %d/%d refuted %d; seen were %d/%d, %d, %d, %d, indirect %d/%d",
				w.label, n.ID, m.HeartbeatSuccess, m.HeartbeatFailure, m.NodesSuspect, m.NodesDead, m.NodesRemoved, m.IndirectProbeSuccess, m.IndirectProbeFailure, m.IndirectProbeRefuted,
				ok, fail, sus, dead, dead, inOK, inFail)
		}
		var al, su, de int64
		balanced := dcl.Eventually(3*time.Second, func() bool {
			al, su, de = 0, 0, 0
			for _, x := range n.M.List() {
				switch x.State {
				case cluster.NodeAlive:
					al++
				case cluster.NodeSuspect:
					su++
				default:
					de++
				}
			}
			m = n.DM.Metrics()
			return m.MembersAlive == al && m.MembersSuspect == su && m.MembersDead == de
		})
		if !balanced {
			w.r.ViolateWith("member-counts", w.tail(), "%s: %s reports %d alive %d suspect %d dead members and has %d/%d/%d", w.label, n.ID, m.MembersAlive, m.MembersSuspect, m.MembersDead, al, su, de)
		}
	}
}

// live: windows shorter than a tick, hung peers that make ticks slow, sampling, stalls. Who answers is never dropped.
func live(r *kit.Run) {
	if !r.Phase("live") {
		return
	}
	for i := 0; i < r.N(40, 800); i++ {
		g := r.Rand("live", i)
		n := 2 + g.Intn(9)
		sample, k := g.Intn(n+1), g.Intn(3)
		dead := time.Duration(3+g.Intn(10)) * time.Millisecond
		gossip := g.Intn(3) == 0
		hung := map[string]bool{}
		for h := g.Intn(n - 1); h > 0; h-- {
			hung[dcl.ID(1+g.Intn(n-1))] = true
		}
		conf := dcl.Conf{N: n, RF: 1 + g.Intn(3), Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{backend.WithDistHeartbeat(2*time.Millisecond, dead/2, dead), backend.WithDistHeartbeatSample(sample), backend.WithDistIndirectProbes(k, time.Millisecond)}
			if gossip {
				o = append(o, backend.WithDistGossipInterval(3*time.Millisecond))
			}
			return o
		}}
		w := start(r, fmt.Sprintf("live %d (n %d hung %v sample %d relays %d dead %v gossip %v)", i, n, hung, sample, k, dead, gossip), conf, dead, dead/2, gossip)
		w.cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) {
			if hung[c.To] && c.Op == "health" || hung[c.To] && c.Op == "indirect" {
				return false, false, time.Hour
			}
			return false, false, 0
		})
		stall := g.Intn(2) == 0
		sr := r.Rand("live-stall", i)
		var smu sync.Mutex
		w.cl.Net.Watch(func(c dcl.Call) {
			w.call(c)
			if stall && c.Op == "health" {
				smu.Lock()
				x := sr.Intn(40)
				smu.Unlock()
				if x == 0 {
					time.Sleep(2 * dead)
				}
			}
		})
		for s := 0; s < 10; s++ {
			time.Sleep(10 * time.Millisecond)
			for _, a := range w.cl.Nodes {
				for _, b := range w.cl.Nodes {
					if a == b || hung[b.ID] {
						continue
					}
					_, ok := knows(a, b.ID)
					r.Case("view/"+w.label, true)
					if !ok {
						w.mu.Lock()
						r.ViolateWith("lost-answering", w.tail(), "%s: %s no longer knows %s, which answers every probe", w.label, a.ID, b.ID)
						w.mu.Unlock()
					}
				}
			}
		}
		if !gossip {
			w.counters(gossip)
		}
		w.finish()
		r.Seen("live", fmt.Sprintf("hung %d sample %v relays %d stall %v", len(hung), sample > 0 && sample < n, k, stall))
		if r.Violations() > 3 {
			return
		}
	}
}

// windows: who stops answering is suspected, then dropped everywhere and for good.
func windows(r *kit.Run) {
	if !r.Phase("windows") {
		return
	}
	for i := 0; i < r.N(36, 700); i++ {
		g := r.Rand("windows", i)
		n := 2 + g.Intn(6)
		k := g.Intn(4)
		gossip := i%2 == 0
		if i%4 == 0 { // many nodes, busy gossip: rumours of the dead go round
			n = 8
		}
		dead := time.Duration(30+g.Intn(60)) * time.Millisecond
		conf := dcl.Conf{N: n, RF: 1 + g.Intn(3), Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{backend.WithDistHeartbeat(4*time.Millisecond, dead/3, dead), backend.WithDistIndirectProbes(k, 0)}
			if gossip {
				o = append(o, backend.WithDistGossipInterval(time.Duration(2+i%4*3)*time.Millisecond))
			}
			return o
		}}
		w := start(r, fmt.Sprintf("windows %d (n %d relays %d dead %v gossip %v)", i, n, k, dead, gossip), conf, dead, dead/3, gossip)
		w.cl.Net.Generic.Store(g.Intn(2) == 0)
		time.Sleep(time.Duration(g.Intn(60)) * time.Millisecond)
		var out []string
		for _, x := range g.Perm(n)[:1+g.Intn(max(1, n-1))] {
			w.crash(dcl.ID(x))
			out = append(out, dcl.ID(x))
			if g.Intn(2) == 0 {
				time.Sleep(time.Duration(g.Intn(40)) * time.Millisecond)
			}
		}
		if g.Intn(2) == 0 { // the process is gone as well
			for _, id := range out {
				w.cl.Net.In.Unregister(id)
				_ = w.cl.Node(id).DM.Stop(context.Background())
			}
		}
		rest := w.alive()
		left := ""
		t0 := time.Now()
		gone := dcl.Eventually(8*time.Second, func() bool {
			left = ""
			for _, a := range rest {
				for _, id := range out {
					if st, ok := knows(a, id); ok {
						left = fmt.Sprintf("%s still has %s (%s)", a.ID, id, st)
					}
				}
			}
			return left == ""
		})
		r.Max(fmt.Sprintf("slowest removal, in dead windows (gossip %v)", gossip), int64(time.Since(t0)/dead))
		r.Case("fate/"+w.label, true)
		if !gone {
			w.mu.Lock()
			r.ViolateWith("not-dropped", w.tail(), "%s: %v crashed 8s ago (suspect after %v, dead after %v): %s", w.label, out, dead/3, dead, left)
			w.mu.Unlock()
			w.finish()
			if r.Violations() > 3 {
				return
			}
			continue
		}
		for _, a := range rest {
			for x := 0; x < 40; x++ {
				for _, o := range a.OwnersSeenBy(fmt.Sprintf("key-%d", x)) {
					for _, id := range out {
						if o == id {
							r.Violate("still-placed", "%s: %s places keys on %s, which it dropped", w.label, a.ID, id)
						}
					}
				}
			}
			for _, b := range rest {
				if _, ok := knows(a, b.ID); !ok {
					r.Violate("lost-answering", "%s: %s no longer knows %s, which answers every probe", w.label, a.ID, b.ID)
				}
			}
		}
		w.counters(gossip)
		for t := time.Now(); time.Since(t) < 3*dead; time.Sleep(2 * time.Millisecond) {
			for _, a := range rest {
				for _, id := range out {
					if st, ok := knows(a, id); ok {
						w.mu.Lock()
						r.ViolateWith("came-back", w.tail(), "%s: %s has the crashed %s again (%s) after every node had dropped it", w.label, a.ID, id, st)
						w.mu.Unlock()
					}
				}
			}
		}
		w.finish()
		r.Seen("windows", fmt.Sprintf("n %d crashed %d relays %d gossip %v", n, len(out), k, gossip))
	}
}

// relay: a cut link between two nodes that others can bridge.
func relay(r *kit.Run) {
	if !r.Phase("relay") {
		return
	}
	for i := 0; i < r.N(24, 500); i++ {
		g := r.Rand("relay", i)
		n := 3 + g.Intn(5)
		k := 1 + g.Intn(3)
		dead := time.Duration(20+g.Intn(30)) * time.Millisecond
		conf := dcl.Conf{N: n, RF: 2, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistHeartbeat(4*time.Millisecond, dead/3, dead), backend.WithDistIndirectProbes(k, time.Second)}
		}}
		w := start(r, fmt.Sprintf("relay %d (n %d relays %d)", i, n, k), conf, dead, dead/3, false)
		a, b := dcl.ID(0), dcl.ID(1)
		w.cl.Net.Cut(a, b, true)
		end := time.Now().Add(5 * dead)
		for time.Now().Before(end) {
			time.Sleep(2 * time.Millisecond)
			for _, p := range [][2]string{{a, b}, {b, a}} {
				_, ok := knows(w.cl.Node(p[0]), p[1])
				r.Case("bridged/"+w.label, true)
				if !ok {
					w.mu.Lock()
					r.ViolateWith("bridged-dropped", w.tail(), "%s: %s dropped %s, which every relay reaches", w.label, p[0], p[1])
					w.mu.Unlock()
				}
			}
		}
		w.counters(false)
		w.finish()
		r.Seen("relay", fmt.Sprintf("n %d k %d", n, k))
		if r.Violations() > 3 {
			return
		}
	}
}

func (w *world) allAlive(limit time.Duration) string {
	bad := ""
	dcl.Eventually(limit, func() bool {
		bad = ""
		for _, a := range w.alive() {
			for _, b := range w.alive() {
				if st, ok := knows(a, b.ID); !ok || st != cluster.NodeAlive {
					bad = fmt.Sprintf("%s has %s known %v as %s", a.ID, b.ID, ok, st)
				}
			}
		}
		return bad == ""
	})
	return bad
}

// restore: who answers again before the window is over is alive again; who was dropped and starts anew is let in again.
func restore(r *kit.Run) {
	if !r.Phase("restore") {
		return
	}
	for i := 0; i < r.N(30, 600); i++ {
		g := r.Rand("restore", i)
		n := 2 + g.Intn(5)
		gossip := g.Intn(2) == 0
		again := i%3 == 0
		dead := 20 * time.Second
		if again {
			gossip = true
			dead = time.Duration(20+g.Intn(40)) * time.Millisecond
		}
		conf := dcl.Conf{N: n, RF: 2, Opts: func(int) []backend.DistMemoryOption {
			o := []backend.DistMemoryOption{backend.WithDistHeartbeat(3*time.Millisecond, 8*time.Millisecond, dead), backend.WithDistIndirectProbes(g.Intn(2), 0)}
			if gossip {
				o = append(o, backend.WithDistGossipInterval(5*time.Millisecond))
			}
			return o
		}}
		w := start(r, fmt.Sprintf("restore %d (n %d gossip %v anew %v)", i, n, gossip, again), conf, dead, 8*time.Millisecond, gossip)
		if again {
			x := g.Intn(n)
			id := dcl.ID(x)
			w.crash(id)
			_ = w.cl.Node(id).DM.Stop(context.Background())
			gone := dcl.Eventually(8*time.Second, func() bool {
				for _, a := range w.alive() {
					if _, ok := knows(a, id); ok {
						return false
					}
				}
				return true
			})
			if !gone {
				r.Violate("not-dropped", "%s: %s crashed and is still known 8s later", w.label, id)
				w.finish()
				continue
			}
			time.Sleep(time.Duration(g.Intn(3*int(dead)) + 1))
			for j, nd := range w.cl.Nodes {
				if nd.ID == id {
					w.cl.Nodes = append(w.cl.Nodes[:j], w.cl.Nodes[j+1:]...)
					break
				}
			}
			w.mu.Lock()
			w.off[id] = false
			for p := range w.p {
				if p.at == id {
					delete(w.p, p)
				}
			}
			delete(w.ind, id)
			w.say("-- %s starts anew", id)
			w.mu.Unlock()
			w.cl.Net.Down(id, false)
			c2 := conf
			c2.Member = w.member
			w.cl.Add(c2, x, n)
		} else {
			for round := 0; round < 3; round++ {
				if g.Intn(2) == 0 {
					w.cl.Faults(g, 1+g.Intn(n), g.Intn(n))
				} else {
					w.cl.Faults(g, 0, 1+g.Intn(2*n))
				}
				time.Sleep(time.Duration(g.Intn(40)) * time.Millisecond)
				w.cl.Net.Heal()
				time.Sleep(time.Duration(g.Intn(10)) * time.Millisecond)
			}
		}
		bad := w.allAlive(8 * time.Second)
		r.Case("restored/"+w.label, true)
		if bad != "" {
			w.mu.Lock()
			r.ViolateWith("not-restored", w.tail(), "%s: all nodes answer since 8s, but %s", w.label, bad)
			w.mu.Unlock()
		} else {
			keyed := map[string]string{}
			for _, a := range w.cl.Nodes {
				for x := 0; x < 30; x++ {
					k := fmt.Sprintf("key-%d", x)
					o := fmt.Sprint(a.OwnersSeenBy(k))
					if keyed[k] != "" && keyed[k] != o {
						r.Violate("placement-after", "%s: with all nodes back %s places %s on %s, others on %s", w.label, a.ID, k, o, keyed[k])
					}
					keyed[k] = o
				}
			}
			w.counters(true)
		}
		w.finish()
		r.Seen("restore", fmt.Sprintf("n %d gossip %v anew %v", n, gossip, again))
		if r.Violations() > 3 {
			return
		}
	}
}

// overHTTP: the real health endpoints; one node stops, one drains, both have to be dropped.
func overHTTP(r *kit.Run) {
	if !r.Phase("http") {
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < r.N(6, 60); i++ {
		wg.Add(1)
		go func() { defer wg.Done(); httpRound(r, r.Rand("http", i), i) }()
		if i%6 == 5 {
			wg.Wait()
		}
	}
	wg.Wait()
}

func httpRound(r *kit.Run, g *rand.Rand, i int) {
	n := 3 + g.Intn(3)
	k := g.Intn(3)
	dead := 300 * time.Millisecond
	conf := dcl.Conf{N: n, RF: 2, HTTP: true, Auth: backend.DistHTTPAuth{Token: "t"}, Opts: func(int) []backend.DistMemoryOption {
		return []backend.DistMemoryOption{backend.WithDistHeartbeat(200*time.Millisecond, 250*time.Millisecond, dead), backend.WithDistIndirectProbes(k, 0), backend.WithDistGossipInterval(50 * time.Millisecond)}
	}}
	w := start(r, fmt.Sprintf("http %d (n %d relays %d)", i, n, k), conf, dead, 0, true)
	time.Sleep(300 * time.Millisecond)
	x := g.Perm(n)
	out := []string{dcl.ID(x[0])}
	w.mu.Lock()
	w.off[out[0]] = true
	w.mu.Unlock()
	_ = w.cl.Node(out[0]).DM.Stop(context.Background())
	if g.Intn(2) == 0 {
		id := dcl.ID(x[1])
		_ = w.cl.Node(id).DM.Drain(context.Background())
		w.mu.Lock()
		w.off[id] = true
		w.mu.Unlock()
		out = append(out, id)
	}
	left := ""
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(5 * time.Millisecond) {
		left = ""
		for _, a := range w.alive() {
			if st, ok := knows(a, out[0]); ok {
				left = fmt.Sprintf("%s still has the stopped %s (%s)", a.ID, out[0], st)
			}
			for _, id := range out[1:] { // a draining node still gossips, so it may come and go, but never looks alive for long
				if st, ok := knows(a, id); ok && st == cluster.NodeAlive {
					left = fmt.Sprintf("%s still has the draining %s (%s)", a.ID, id, st)
				}
			}
		}
		if left == "" || time.Now().After(end) {
			break
		}
	}
	r.Case("http/"+w.label, true)
	if left != "" {
		w.mu.Lock()
		r.ViolateWith("not-dropped", w.tail(), "%s: 20s after %v went: %s", w.label, out, left)
		w.mu.Unlock()
	}
	w.finish()
	r.Seen("http", fmt.Sprintf("n %d relays %d gone %d", n, k, len(out)))
}
