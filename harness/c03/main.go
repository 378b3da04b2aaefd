// C03: newer membership claims win and a live node always refutes its own death.
//
// Oracle: a reference membership (highest incarnation per member) for sequential claims; for concurrent ones the
// highest claim delivered; snapshots of a member never show two states under one incarnation nor an incarnation going
// back; in running clusters every rumour about a live node ends with every peer seeing it alive above the rumour.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

func main() {
	kit.Main("C03", "a distinct history of claims or transitions judged", func(r *kit.Run) {
		transitions(r)
		claims(r)
		together(r)
		refute(r)
		overHTTP(r)
		rumours(r)
	})
}

type view struct {
	st   cluster.NodeState
	inc  uint64
	addr string
}

func look(m *cluster.Membership) map[string]view {
	out := map[string]view{}
	for _, n := range m.List() {
		out[string(n.ID)] = view{n.State, n.Incarnation, n.Address}
	}
	return out
}

// transitions: every state change of a member carries a higher incarnation, however many observers race.
func transitions(r *kit.Run) {
	if !r.Phase("transitions") {
		return
	}
	for i := 0; i < r.N(400, 8000); i++ {
		g := r.Rand("transitions", i)
		m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(4)))
		ids := []cluster.NodeID{"a", "b", "c"}
		start := map[cluster.NodeID]uint64{}
		for _, id := range ids {
			n := cluster.NewNode(string(id), "h:1")
			n.Incarnation = uint64(g.Intn(20))
			start[id] = n.Incarnation
			m.Upsert(n)
		}
		var mu sync.Mutex
		told := map[cluster.NodeID]uint64{}
		m.OnStateChange(func(id cluster.NodeID, _ cluster.NodeState, _ uint64) { mu.Lock(); told[id]++; mu.Unlock() })
		var wg, rg sync.WaitGroup
		var done atomic.Bool
		for c := 0; c < 2; c++ { // readers
			rg.Add(1)
			go func() {
				defer rg.Done()
				last := map[string]view{}
				for !done.Load() {
					now := look(m)
					for id, v := range now {
						l, ok := last[id]
						if ok && v.inc < l.inc {
							r.Violate("incarnation-back", "the incarnation of %s went from %d to %d", id, l.inc, v.inc)
						}
						if ok && v.inc == l.inc && v.st != l.st {
							r.Violate("transition-without-incarnation", "%s was seen %s and then %s under the same incarnation %d", id, l.st, v.st, v.inc)
						}
						last[id] = v
					}
					r.Add("snapshots", 1)
				}
			}()
		}
		for c := 0; c < 4; c++ {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 25; n++ {
					id := ids[h.Intn(3)]
					if h.Intn(6) == 0 {
						m.Refute(id)
					} else {
						m.Mark(id, cluster.NodeState(h.Intn(3)))
					}
				}
			}()
		}
		wg.Wait()
		done.Store(true)
		rg.Wait()
		for id, v := range look(m) {
			mu.Lock()
			n := told[cluster.NodeID(id)]
			mu.Unlock()
			if v.inc != start[cluster.NodeID(id)]+n {
				r.Violate("incarnation-count", "%s went through %d changes and its incarnation from %d to %d", id, n, start[cluster.NodeID(id)], v.inc)
			}
		}
		r.Case(fmt.Sprint("transitions", i), true)
	}
}

func claim(g *rand.Rand, id string, inc uint64) backend.GossipMember {
	return backend.GossipMember{ID: id, Address: fmt.Sprintf("h:%d", g.Intn(5)), State: []string{"alive", "suspect", "dead"}[g.Intn(3)], Incarnation: inc}
}

func state(s string) cluster.NodeState {
	switch s {
	case "suspect":
		return cluster.NodeSuspect
	case "dead":
		return cluster.NodeDead
	}
	return cluster.NodeAlive
}

// claims: gossip against a reference membership, one message at a time.
func claims(r *kit.Run) {
	if !r.Phase("claims") {
		return
	}
	for i := 0; i < r.N(400, 8000); i++ {
		g := r.Rand("claims", i)
		cl := dcl.New(dcl.Conf{N: 1 + g.Intn(3), RF: 1 + g.Intn(3), VN: 4, Plain: g.Intn(2) == 0})
		n := cl.Nodes[0]
		model := look(n.M)
		var log []any
		for s := 0; s < 12; s++ {
			var msg []backend.GossipMember
			for k := 1 + g.Intn(4); k > 0; k-- {
				msg = append(msg, claim(g, dcl.ID(1+g.Intn(5)), uint64(g.Intn(8))))
			}
			log = append(log, msg)
			ver := n.M.Version()
			if err := cl.Net.In.Gossip(context.Background(), n.ID, msg); err != nil {
				r.Violate("gossip-error", "Gossip = %v", err)
			}
			adopted := uint64(0)
			for _, c := range msg {
				cur, ok := model[c.ID]
				if !ok || c.Incarnation > cur.inc {
					model[c.ID] = view{state(c.State), c.Incarnation, c.Address}
					adopted++
				}
			}
			got := look(n.M)
			if len(got) != len(model) {
				r.ViolateWith("claim-lost", log, "after gossip the node knows %v, it should know %v", got, model)
				break
			}
			bad := false
			for id, w := range model {
				if got[id] != w {
					r.ViolateWith("claim-rule", log, "%s is held as %+v, the highest incarnation heard says %+v", id, got[id], w)
					bad = true
				}
			}
			if d := n.M.Version() - ver; d != adopted {
				r.ViolateWith("version-vs-claims", log, "%d claims were news and the membership version advanced by %d", adopted, d)
			}
			if bad {
				break
			}
			ring(r, n, cl, log)
		}
		cl.Stop()
		r.Case(fmt.Sprint("claims", i, len(log)), true)
	}
}

// ring: keys are placed on the members not known dead.
func ring(r *kit.Run, n *dcl.Node, cl *dcl.Cluster, wit any) {
	ref := cluster.NewRing(cluster.WithReplication(cl.RF), cluster.WithVirtualNodes(cl.VN))
	var in []*cluster.Node
	for _, x := range n.M.List() {
		if x.State != cluster.NodeDead {
			in = append(in, x)
		}
	}
	ref.Build(in)
	for k := 0; k < 12; k++ {
		key := fmt.Sprint("key", k)
		if fmt.Sprint(ref.Lookup(key)) != fmt.Sprint(n.M.Ring().Lookup(key)) {
			r.ViolateWith("ring-after-gossip", wit, "after gossip %q is placed on %v instead of %v", key, n.M.Ring().Lookup(key), ref.Lookup(key))
			return
		}
	}
}

// together: claims delivered at once; the highest wins.
func together(r *kit.Run) {
	if !r.Phase("together") {
		return
	}
	for i := 0; i < r.N(4000, 40000); i++ {
		g := r.Rand("together", i)
		cl := dcl.New(dcl.Conf{N: 2, RF: 2, VN: 4, Plain: true})
		n := cl.Nodes[0]
		best := look(n.M)
		senders := 2 + g.Intn(6)
		msgs := make([][][]backend.GossipMember, senders)
		used := map[string]bool{}
		for s := range msgs {
			for k := 1 + g.Intn(5); k > 0; k-- {
				var msg []backend.GossipMember
				for l := 1 + g.Intn(3); l > 0; l-- {
					c := claim(g, dcl.ID(1+g.Intn(3)), uint64(2+g.Intn(40)))
					id := fmt.Sprint(c.ID, "/", c.Incarnation)
					if used[id] { // equal incarnations with different contents have no order
						continue
					}
					used[id] = true
					msg = append(msg, c)
					if c.Incarnation > best[c.ID].inc {
						best[c.ID] = view{state(c.State), c.Incarnation, c.Address}
					}
				}
				msgs[s] = append(msgs[s], msg)
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for s := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, m := range msgs[s] {
					_ = cl.Net.In.Gossip(context.Background(), n.ID, m)
				}
			}()
		}
		close(start)
		wg.Wait()
		got := look(n.M)
		for id, w := range best {
			if got[id] != w {
				r.ViolateWith("older-claim-overwrote", msgs, "after all gossip arrived %s is held as %+v, the newest claim delivered is %+v", id, got[id], w)
			}
		}
		ring(r, n, cl, msgs)
		cl.Stop()
		r.Case(fmt.Sprint("together", i), true)
		r.Add("claims-delivered-concurrently", int64(len(used)))
	}
}

func self(n *dcl.Node) view { return look(n.M)[n.ID] }

// refute: claims about the node itself.
func refute(r *kit.Run) {
	if !r.Phase("refute") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(500, 10000); i++ {
		g := r.Rand("refute", i)
		cl := dcl.New(dcl.Conf{N: 2, RF: 1, VN: 4, Plain: true})
		n := cl.Nodes[0]
		for s := 0; s < 10; s++ {
			before := self(n)
			inc := before.inc
			switch g.Intn(4) {
			case 0:
				inc += uint64(g.Intn(3))
			case 1:
				inc += uint64(g.Intn(1000))
			case 2:
				if d := uint64(g.Intn(4)); d <= inc {
					inc -= d
				}
			}
			c := claim(g, n.ID, inc)
			msg := []backend.GossipMember{c}
			if g.Intn(3) == 0 {
				msg = append([]backend.GossipMember{claim(g, "n1", uint64(g.Intn(9)))}, msg...)
			}
			_ = cl.Net.In.Gossip(ctx, n.ID, msg)
			after := self(n)
			switch {
			case after.st != cluster.NodeAlive:
				r.Violate("believes-own-death", "a running node holds itself %s after hearing %+v", after.st, c)
			case after.inc < before.inc:
				r.Violate("incarnation-back", "a node's own incarnation went from %d to %d after hearing %+v", before.inc, after.inc, c)
			case c.State != "alive" && inc >= before.inc && after.inc <= inc:
				r.Violate("refutation-too-low", "a node at incarnation %d heard it was %s at %d and answers with %d, which no peer holding the rumour adopts", before.inc, c.State, inc, after.inc)
			case (c.State == "alive" || inc < before.inc) && after.inc != before.inc:
				r.Violate("needless-refutation", "a node at incarnation %d heard %+v and moved to %d", before.inc, c, after.inc)
			case after.addr != before.addr:
				r.Violate("own-address-overwritten", "gossip changed a node's own address from %s to %s", before.addr, after.addr)
			}
		}
		// several at once
		var wg sync.WaitGroup
		var top uint64
		for k := 0; k < 6; k++ {
			inc := self(n).inc + uint64(g.Intn(30))
			top = max(top, inc)
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = cl.Net.In.Gossip(ctx, n.ID, []backend.GossipMember{{ID: n.ID, Address: "x:1", State: "dead", Incarnation: inc}})
			}()
		}
		wg.Wait()
		if a := self(n); a.st != cluster.NodeAlive || a.inc <= top {
			r.Violate("refutation-too-low", "after concurrent rumours up to incarnation %d a running node holds itself %s at %d", top, a.st, a.inc)
		}
		cl.Stop()
		r.Case(fmt.Sprint("refute", i), true)
	}
}

// overHTTP: the same rules through the /internal/gossip door of a node, and for a pair of nodes over real HTTP.
func overHTTP(r *kit.Run) {
	if !r.Phase("http") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(8, 60); i++ {
		g := r.Rand("http", i)
		addr := freeAddr()
		b, err := backend.NewDistMemory(ctx, backend.WithDistNode("self", addr), backend.WithDistReplication(1), backend.WithDistVirtualNodes(4))
		if err != nil {
			r.Inconclusive("node did not start")
			continue
		}
		dm := b.(*backend.DistMemory)
		model := look(dm.Membership())
		for s := 0; s < 25; s++ {
			var msg []backend.GossipMember
			for k := g.Intn(4); k >= 0; k-- {
				if g.Intn(4) == 0 {
					msg = append(msg, claim(g, "self", model["self"].inc+uint64(g.Intn(5))))
				} else {
					msg = append(msg, claim(g, dcl.ID(g.Intn(4)), uint64(g.Intn(10))<<uint(g.Intn(3)*20)))
				}
			}
			body, _ := json.Marshal(msg)
			resp, err := http.Post("http://"+addr+"/internal/gossip", "application/json", bytes.NewReader(body))
			if err != nil {
				r.Inconclusive("gossip endpoint unreachable")
				break
			}
			resp.Body.Close()
			if resp.StatusCode != 200 {
				r.Violate("gossip-error", "well-formed gossip was answered %d", resp.StatusCode)
			}
			for _, c := range msg {
				cur, ok := model[c.ID]
				if c.ID == "self" {
					if c.State != "alive" && c.Incarnation >= cur.inc {
						cur.inc = c.Incarnation + 1
						model["self"] = cur
					}
				} else if !ok || c.Incarnation > cur.inc {
					model[c.ID] = view{state(c.State), c.Incarnation, c.Address}
				}
			}
			got := look(dm.Membership())
			if a := got["self"]; a.st != cluster.NodeAlive || a.inc < model["self"].inc {
				r.Violate("refutation-too-low", "over HTTP: a node that should be alive at %d or more holds itself %s at %d", model["self"].inc, a.st, a.inc)
			}
			model["self"] = got["self"]
			for id, w := range model {
				if got[id] != w {
					r.Violate("claim-rule", "over HTTP: %s is held as %+v, the highest incarnation heard says %+v", id, got[id], w)
					model[id] = got[id]
				}
			}
			r.Add("http-gossip-messages", 1)
		}
		_ = dm.Stop(ctx)
		r.Case(fmt.Sprint("http", i), true)
	}
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "127.0.0.1:1"
	}
	defer l.Close()
	return l.Addr().String()
}

// rumours: in a gossiping cluster, every peer ends up seeing the subject of a rumour alive above the rumour.
func rumours(r *kit.Run) {
	if !r.Phase("rumours") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(60, 600); i++ {
		g := r.Rand("rumours", i)
		size := 2 + g.Intn(4)
		away := i%3 == 2
		cl := dcl.New(dcl.Conf{N: size, RF: 2, VN: 4, Plain: !away && g.Intn(2) == 0, Shared: false, Opts: func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistGossipInterval(2 * time.Millisecond)}
		}})
		rum := map[string]uint64{}
		began := time.Now()
		var wg sync.WaitGroup
		if away { // one node hears nothing while the others settle the matter among themselves
			cl.Net.Down(cl.Any(g).ID, true)
		}
		for k := 1 + g.Intn(4); k > 0; k-- {
			subject, told := cl.Any(g), cl.Any(g)
			inc := uint64(1 + g.Intn(300))
			st := []string{"suspect", "dead"}[g.Intn(2)]
			rum[subject.ID] = max(rum[subject.ID], inc)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if h := inc % 3; h == 0 && told != subject {
					// a peer's own observation instead of hearsay
					told.M.Mark(cluster.NodeID(subject.ID), state(st))
				} else {
					_ = cl.Net.In.Gossip(ctx, told.ID, []backend.GossipMember{{ID: subject.ID, Address: subjectAddr(told, subject), State: st, Incarnation: inc}})
				}
			}()
		}
		wg.Wait()
		if away {
			for from := cl.Net.Calls.Load(); cl.Net.Calls.Load() < from+int64(20*size*size) && time.Since(began) < 3*time.Second; {
				time.Sleep(2 * time.Millisecond)
			}
			cl.Net.Heal()
			r.Add("nodes-back-from-silence", 1)
		}
		deadline := time.Now().Add(20 * time.Second)
		for {
			bad := ""
			for _, n := range cl.Nodes {
				for id, v := range look(n.M) {
					if v.st != cluster.NodeAlive {
						bad = fmt.Sprintf("%s sees %s as %s at %d", n.ID, id, v.st, v.inc)
					}
				}
			}
			if bad == "" {
				break
			}
			if time.Now().After(deadline) {
				r.ViolateWith("rumour-stands", rum, "20 s and %d gossip calls after the rumours %s although it is running and refutes", cl.Net.Calls.Load(), bad)
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		cl.Stop()
		ids := []string{}
		for id := range rum {
			ids = append(ids, fmt.Sprint(id, rum[id]))
		}
		sort.Strings(ids)
		r.Case(fmt.Sprint("rumours", size, ids), true)
	}
}

func subjectAddr(told, subject *dcl.Node) string {
	for _, n := range told.M.List() {
		if string(n.ID) == subject.ID {
			return n.Address
		}
	}
	return "h:1"
}
