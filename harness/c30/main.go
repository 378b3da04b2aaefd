// C30: a distributed write is acknowledged only by enough owners.
//
// Oracle: after every operation the monitor looks into every node of the cluster (past the disturbed network) and
// counts the owners that hold the write; the answer the client got has to agree with that count and with which nodes
// could be reached.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

func main() {
	kit.Main("C30", "a write or removal whose answer was compared with the copies the owners hold", func(r *kit.Run) {
		healthy(r)
		faulty(r)
		concurrent(r)
		divergent(r)
	})
}

func opts(level string) func(int) []backend.DistMemoryOption {
	return func(int) []backend.DistMemoryOption {
		return []backend.DistMemoryOption{
			backend.WithDistWriteConsistency(dcl.Levels[level]), backend.WithDistReadConsistency(dcl.Levels[level]),
			backend.WithDistHintTTL(time.Hour), // queued, never replayed here
		}
	}
}

func names(m map[string]*cache.Item) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func holding(cl *dcl.Cluster, owners []string, key string, val any) []string {
	var s []string
	for _, o := range owners {
		if it, ok := cl.Local(o, key); ok && it.Value == val {
			s = append(s, o)
		}
	}
	return s
}

// newest keeps the holders of the highest version: a coordinator that had to decide again, above a version a replica
// reported, may have reached an owner with its first decision only.
func newest(h map[string]*cache.Item, have []string) []string {
	var top uint64
	for _, o := range have {
		top = max(top, h[o].Version)
	}
	var s []string
	for _, o := range have {
		if h[o].Version == top {
			s = append(s, o)
		}
	}
	return s
}

func healthy(r *kit.Run) {
	if !r.Phase("healthy") {
		return
	}
	for i := 0; i < r.N(150, 2500); i++ {
		g := r.Rand("healthy", i)
		n := 1 + g.Intn(6)
		c := dcl.Conf{N: n, RF: 1 + g.Intn(n+1), VN: 1 + g.Intn(32), Plain: g.Intn(4) == 0, Shared: g.Intn(4) == 0, HTTP: i%12 == 5}
		level := dcl.LevelNames[g.Intn(3)]
		c.Opts = opts(level)
		cl := dcl.New(c)
		label := fmt.Sprintf("%d nodes, replication %d, %s, HTTP %v", n, c.RF, level, c.HTTP)
		for step := 0; step < 12; step++ {
			key := fmt.Sprintf("k%d", g.Intn(6))
			owners := cl.Owners(key)
			node := cl.Any(g)
			if g.Intn(4) > 0 {
				val := fmt.Sprint("v", step)
				ttl := []time.Duration{0, time.Hour, 90 * time.Millisecond}[g.Intn(3)]
				if err := node.DM.Set(ctx, dcl.Item(key, val, ttl)); err != nil {
					r.Violate("healthy-set", "%s: Set of %s via %s (owners %v) = %v although every owner is up", label, key, node.ID, owners, err)
				}
				h := cl.Holders(key)
				for _, o := range owners {
					it := h[o]
					if it == nil || it.Value != val || it.Expiration != ttl || it.Version != h[owners[0]].Version || it.Origin != h[owners[0]].Origin {
						r.Violate("owner-missing", "%s: after Set of %s=%s via %s, owner %s of %v holds %+v", label, key, val, node.ID, o, owners, it)
						break
					}
				}
				if len(h) != len(owners) {
					r.Violate("foreign-copy", "%s: %s belongs to %v, but %v hold it", label, key, owners, names(h))
				}
			} else {
				keys := []string{key}
				for g.Intn(2) == 0 {
					keys = append(keys, fmt.Sprintf("k%d", g.Intn(6)))
				}
				if err := node.DM.Remove(ctx, keys...); err != nil {
					r.Violate("healthy-remove", "%s: Remove of %v via %s = %v although every owner is up", label, keys, node.ID, err)
				}
				for _, k := range keys {
					if h := cl.Holders(k); len(h) > 0 {
						r.Violate("remove-left", "%s: after Remove of %v via %s, %v still hold %s", label, keys, node.ID, names(h), k)
					}
				}
			}
			r.Case(fmt.Sprint(label, node.ID, key, owners, step), true)
			r.Seen("shapes", fmt.Sprint(n, c.RF, level, node.ID == owners[0], dcl.Has(owners, node.ID)))
			r.Add("operations", 1)
		}
		cl.Stop()
		if r.Violations() > 5 {
			return
		}
	}
}

// faulty: one client, arbitrary failures; the answer must match what happened exactly.
func faulty(r *kit.Run) {
	if !r.Phase("faulty") {
		return
	}
	for i := 0; i < r.N(250, 5000); i++ {
		g := r.Rand("faulty", i)
		n := 2 + g.Intn(5)
		c := dcl.Conf{N: n, RF: 1 + g.Intn(min(n, 5)), Shared: g.Intn(5) == 0, HTTP: i%12 == 7}
		level := dcl.LevelNames[g.Intn(3)]
		c.Opts = opts(level)
		cl := dcl.New(c)
		cl.Net.Generic.Store(g.Intn(2) == 0)
		seq := 0
		if g.Intn(2) == 0 { // some history before the failures
			for s := 0; s < 4; s++ {
				seq++
				_ = cl.Any(g).DM.Set(ctx, dcl.Item(fmt.Sprintf("k%d", g.Intn(3)), fmt.Sprint("v", seq), time.Hour))
			}
		}
		calls := g.Intn(3) == 0 // single calls fail, too
		var dg *rand.Rand
		var dmu sync.Mutex
		var dropped []string
		if calls {
			dg = rand.New(rand.NewSource(g.Int63()))
			cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) {
				dmu.Lock()
				defer dmu.Unlock()
				if dg.Intn(4) == 0 {
					dropped = append(dropped, fmt.Sprintf("%s->%s %s", c.From, c.To, c.Op))
					return true, false, 0
				}
				return false, false, 0
			})
		}
		for step := 0; step < 8; step++ {
			cl.Faults(g, g.Intn(n), g.Intn(n))
			key := fmt.Sprintf("k%d", g.Intn(3))
			owners := cl.Owners(key)
			need := dcl.Required(level, len(owners))
			node := cl.Any(g)
			seq++
			val := fmt.Sprint("v", seq)
			dmu.Lock()
			dropped = nil
			dmu.Unlock()
			err := node.DM.Set(ctx, dcl.Item(key, val, time.Hour))
			have := holding(cl, owners, key, val)
			h := cl.Holders(key)
			// who can be reached from the nodes that may coordinate
			reach := func(from string) int {
				k := 0
				for _, o := range owners {
					if cl.Net.Reaches(from, o) {
						k++
					}
				}
				return k
			}
			primary := owners[0]
			dmu.Lock()
			label := fmt.Sprintf("%s, HTTP %v, key %s, owners %v, via %s, primary reachable %v, single failures %v: ", level, c.HTTP, key, owners, node.ID, cl.Net.Reaches(node.ID, primary), dropped)
			clean := len(dropped) == 0
			dmu.Unlock()
			switch {
			case err == nil && len(have) < need:
				r.Violate("short-ack", "%sSet succeeded although only %v hold the write and the level asks for %d", label, have, need)
			case errors.Is(err, sentinel.ErrQuorumFailed) && len(newest(h, have)) >= need:
				r.Violate("false-failure", "%sSet reports a failed quorum although %v hold the write and the level asks for %d", label, have, need)
			case err != nil && clean && cl.Net.Reaches(node.ID, primary) && reach(primary) >= need:
				r.Violate("refused", "%sSet = %v although the primary reaches %d owners and the level asks for %d", label, err, reach(primary), need)
			case err != nil && clean && !cl.Net.Reaches(node.ID, primary) && dcl.Has(owners, node.ID) && reach(node.ID) >= need:
				r.Violate("not-promoted", "%sSet = %v although this replica reaches %d owners and the level asks for %d", label, err, reach(node.ID), need)
			case err != nil && clean && cl.Net.Reaches(node.ID, primary) && !errors.Is(err, sentinel.ErrQuorumFailed):
				r.Violate("wrong-error", "%sSet = %v; too few owners is a quorum failure", label, err)
			case err != nil && !cl.Net.Reaches(node.ID, primary) && !dcl.Has(owners, node.ID) && len(have) > 0:
				r.Violate("stored-elsewhere", "%sSet = %v although %v hold the write", label, err, have)
			}
			for id := range h {
				if !dcl.Has(owners, id) {
					r.Violate("foreign-copy", "%s%s holds a copy", label, id)
				}
			}
			r.Case(fmt.Sprint(label, reach(primary), err), err != nil || len(have) < len(owners))
			r.Seen("outcomes", fmt.Sprint(level, len(owners), len(have), err == nil, node.ID == primary, dcl.Has(owners, node.ID)))
			r.Add("operations", 1)
			if err != nil {
				r.Add("refused_writes", 1)
			}
		}
		cl.Stop()
		if r.Violations() > 5 {
			return
		}
	}
}

type acked struct {
	key, val, level, via string
	start                time.Time
}

// concurrent: many clients under failures; every acknowledged write is on enough owners, or replaced there by another.
func concurrent(r *kit.Run) {
	if !r.Phase("concurrent") {
		return
	}
	for i := 0; i < r.N(40, 600); i++ {
		g := r.Rand("concurrent", i)
		n := 3 + g.Intn(3)
		rf := 2 + g.Intn(min(n, 4)-1)
		level := dcl.LevelNames[1+g.Intn(2)]
		cl := dcl.New(dcl.Conf{N: n, RF: rf, Opts: opts(level)})
		var disturbed atomic.Int64
		seed := g.Int63()
		cl.Net.Disturb(func(c dcl.Call) (bool, bool, time.Duration) {
			x := rand.New(rand.NewSource(seed + disturbed.Add(1)))
			switch x.Intn(12) {
			case 0:
				return true, false, 0
			case 1:
				return false, false, time.Duration(x.Intn(400)) * time.Microsecond
			}
			return false, false, 0
		})
		// every applied copy passes the transport or is stored by its coordinator: watch who was given what
		var wmu sync.Mutex
		given := map[string]map[string]bool{} // value -> owners that took it, coordinator included
		cl.Net.Watch(func(c dcl.Call) {
			if c.Op != "set" || c.Replicate {
				return
			}
			took := c.Err == nil || strings.Contains(c.Err.Error(), "newer") || strings.Contains(c.Err.Error(), "supersede")
			wmu.Lock()
			defer wmu.Unlock()
			v := c.Item.Value.(string)
			if given[v] == nil {
				given[v] = map[string]bool{c.From: true}
			}
			if took {
				given[v][c.To] = true
			}
		})
		var mu sync.Mutex
		var acks []acked
		refused := 0
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			gw := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := 0; s < 10; s++ {
					key, val := fmt.Sprintf("k%d", gw.Intn(3)), fmt.Sprintf("w%d.%d", w, s)
					node := cl.Any(gw)
					err := node.DM.Set(ctx, dcl.Item(key, val, time.Hour))
					mu.Lock()
					if err == nil {
						acks = append(acks, acked{key: key, val: val, via: node.ID})
					} else {
						refused++
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		cl.Net.Calm()
		wmu.Lock()
		for _, a := range acks {
			owners := cl.Owners(a.key)
			need := dcl.Required(level, len(owners))
			k := 0
			for _, o := range owners {
				if given[a.val][o] {
					k++
				}
			}
			if k < need {
				r.Violate("short-ack-concurrent", "%s: %s=%s via %s was acknowledged, but only %d of its owners %v took it (%v)", level, a.key, a.val, a.via, k, owners, given[a.val])
			}
		}
		wmu.Unlock()
		for k := 0; k < 3; k++ {
			key := fmt.Sprintf("k%d", k)
			for id := range cl.Holders(key) {
				if !dcl.Has(cl.Owners(key), id) {
					r.Violate("foreign-copy", "%s holds %s, which belongs to %v", id, key, cl.Owners(key))
				}
			}
		}
		r.Case(fmt.Sprint("concurrent", i), refused > 0)
		r.Add("operations", int64(len(acks)+refused))
		r.Add("refused_writes", int64(refused))
		cl.Stop()
	}
}

// divergent: nodes know different members. Nobody stores what it does not own, and no write is acknowledged that
// fewer owners hold than the level asks for.
func divergent(r *kit.Run) {
	if !r.Phase("divergent") {
		return
	}
	for i := 0; i < r.N(120, 2500); i++ {
		g := r.Rand("divergent", i)
		n := 4 + g.Intn(3)
		rf := 1 + g.Intn(3)
		level := dcl.LevelNames[g.Intn(3)]
		cl := dcl.New(dcl.Conf{N: n, RF: rf, Opts: opts(level), HTTP: i%12 == 3})
		for k := 0; k < 1+g.Intn(4); k++ { // some have not heard of some
			a, b := cl.Any(g), cl.Any(g)
			if a != b && len(a.M.List()) > rf+1 {
				a.M.Remove(cluster.NodeID(b.ID))
			}
		}
		for step := 0; step < 10; step++ {
			key, val := fmt.Sprintf("k%d", g.Intn(12)), fmt.Sprint("v", step)
			node := cl.Any(g)
			err := node.DM.Set(ctx, dcl.Item(key, val, time.Hour))
			h := cl.Holders(key)
			k := 0
			for id, it := range h {
				if it.Value == val && dcl.Has(cl.Node(id).OwnersSeenBy(key), id) {
					k++
				}
				if !dcl.Has(cl.Node(id).OwnersSeenBy(key), id) {
					r.Violate("foreign-copy", "%s stores %s, which by its own view belongs to %v", id, key, cl.Node(id).OwnersSeenBy(key))
				}
			}
			if need := dcl.Required(level, rf); err == nil && k < need {
				r.Violate("short-ack-divergent", "%s, replication %d: Set of %s via %s (which sees owners %v) was acknowledged, but %d owners hold it: %v", level, rf, key, node.ID, node.OwnersSeenBy(key), k, names(h))
			}
			r.Case(fmt.Sprint("divergent", i, step), err != nil || k < rf)
			r.Add("operations", 1)
		}
		cl.Stop()
	}
}
