// C01: key placement is a deterministic, stable function of the member set.
package main

import (
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
)

func nodes(ids []string) []*cluster.Node {
	out := make([]*cluster.Node, len(ids))
	for i, id := range ids {
		out[i] = cluster.NewNode(id, fmt.Sprintf("10.0.0.%d:%d", i, 1000+i))
	}
	return out
}

func build(ids []string, opts ...cluster.RingOption) *cluster.Ring {
	r := cluster.NewRing(opts...)
	r.Build(nodes(ids))
	return r
}

func strs(in []cluster.NodeID) []string {
	o := make([]string, len(in))
	for i, x := range in {
		o[i] = string(x)
	}
	return o
}

func genIDs(rng *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	style := rng.Intn(5)
	for len(out) < n {
		var id string
		switch style {
		case 0:
			id = fmt.Sprintf("node-%d", len(out))
		case 1:
			id = strings.Repeat("a", 1+len(out)) // prefixes of each other
		case 2:
			b := make([]byte, 1+rng.Intn(6))
			rng.Read(b)
			id = string(b)
		case 3:
			id = fmt.Sprintf("%x", rng.Uint64())
		default:
			id = fmt.Sprintf("n%d\x00%d", rng.Intn(3), len(out))
		}
		if id == "" || seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, id)
	}
	return out
}

func genKey(rng *rand.Rand) string {
	switch rng.Intn(4) {
	case 0:
		return fmt.Sprintf("key-%d", rng.Intn(100000))
	case 1:
		b := make([]byte, rng.Intn(20))
		rng.Read(b)
		return string(b)
	case 2:
		return strings.Repeat("x", rng.Intn(200)) + fmt.Sprint(rng.Intn(50))
	default:
		return fmt.Sprintf("user:%d:profile", rng.Int63())
	}
}

// without removes one member from an owner list.
func without(l []string, id string) []string {
	var o []string
	for _, x := range l {
		if x != id {
			o = append(o, x)
		}
	}
	return o
}

func main() {
	kit.Main("C01", "random member sets (5 identity styles, 0..24 members), vnode counts 1..400, RF 1..8 and keys; per case: "+
		"order independence, rebuild-history independence, distinctness/length, add/remove stability, independence of addresses and states; non-trivial = at least 2 members", run)
}

func run(r *kit.Run) {
	if r.Phase("placement") {
		rounds := r.N(1500, 20000)
		for i := 0; i < rounds; i++ {
			rng := r.Rand("placement", i)
			placement(r, rng, i)
		}
	}
	if r.Phase("spread") {
		spread(r)
	}
	if r.Phase("membership-path") {
		viaMembership(r)
	}
	if r.Phase("defaults") {
		defaults(r)
	}
	if r.Phase("rebuild-under-readers") {
		for i := 0; i < r.N(150, 3000); i++ {
			underReaders(r, r.Rand("readers", i), i)
		}
	}
}

// underReaders: keys are looked up while the member set changes. Every answer is the placement
// under a set that was in effect during the lookup, and once the changes are over every key is
// placed as on a ring built of the last set, whatever was answered meanwhile.
func underReaders(r *kit.Run, rng *rand.Rand, i int) {
	rf, vn := 1+rng.Intn(3), []int{1, 8, 64}[rng.Intn(3)]
	opts := []cluster.RingOption{cluster.WithVirtualNodes(vn), cluster.WithReplication(rf)}
	all := genIDs(rng, 8)
	const sets = 6
	members := make([][]string, sets)
	for k := range members {
		perm := rng.Perm(len(all))[:2+rng.Intn(5)]
		for _, p := range perm {
			members[k] = append(members[k], all[p])
		}
	}
	keys := make([]string, 40)
	want := make([][][]string, sets)
	refs := make([]*cluster.Ring, sets)
	for k := range refs {
		refs[k] = build(members[k], opts...)
	}
	for j := range keys {
		keys[j] = fmt.Sprintf("k%d-%d", i, j)
	}
	for k := range refs {
		for _, key := range keys {
			want[k] = append(want[k], strs(refs[k].Lookup(key)))
		}
	}
	built := make([][]*cluster.Node, sets)
	for k := range built {
		built[k] = nodes(members[k])
	}
	live := cluster.NewRing(opts...)
	live.Build(built[0])
	var started, finished atomic.Int64 // sets whose build has begun / is over
	started.Store(1)
	finished.Store(1)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mixed, reads atomic.Int64
	for g := 0; g < 4; g++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := rand.New(rand.NewSource(seed))
			for {
				select {
				case <-stop:
					return
				default:
				}
				j := own.Intn(len(keys))
				lo := int(finished.Load()) - 1
				got := strs(live.Lookup(keys[j]))
				hi := int(started.Load()) - 1
				reads.Add(1)
				if hi > lo {
					mixed.Add(1)
				}
				ok := false
				for k := lo; k <= hi; k++ {
					ok = ok || slices.Equal(got, want[k][j])
				}
				if !ok {
					r.Violate("owners-of-no-set", "key %q looked up while sets %d..%d of %q were in effect: owners %q", keys[j], lo, hi, members, got)
					return
				}
			}
		}()
	}
	for k := 1; k < sets; k++ {
		time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		started.Store(int64(k + 1))
		live.Build(built[k])
		finished.Store(int64(k + 1))
	}
	close(stop)
	wg.Wait()
	for pass := 0; pass < 2; pass++ {
		for j, key := range keys {
			if got := strs(live.Lookup(key)); !slices.Equal(got, want[sets-1][j]) {
				r.Violate("stale-placement", "after the member sets %q followed each other under readers, key %q has owners %q; a ring of the last set gives %q", members, key, got, want[sets-1][j])
				return
			}
		}
	}
	r.Add("lookups_during_changes", reads.Load())
	r.Add("lookups_overlapping_a_build", mixed.Load())
	r.Case(fmt.Sprintf("readers|%d|%q", i, members), true)
}

func placement(r *kit.Run, rng *rand.Rand, i int) {
	n := rng.Intn(25)
	if rng.Intn(3) == 0 {
		n = rng.Intn(5)
	}
	vn := []int{1, 2, 3, 16, 64, 128, 256, 300, 400}[rng.Intn(9)]
	rf := 1 + rng.Intn(8)
	ids := genIDs(rng, n)
	opts := []cluster.RingOption{cluster.WithVirtualNodes(vn), cluster.WithReplication(rf)}
	base := build(ids, opts...)
	if base.Replication() != rf || base.VirtualNodesPerNode() != vn {
		r.Violate("settings", "ring reports replication %d vnodes %d, configured %d %d", base.Replication(), base.VirtualNodesPerNode(), rf, vn)
	}
	perm := slices.Clone(ids)
	rng.Shuffle(len(perm), func(a, b int) { perm[a], perm[b] = perm[b], perm[a] })
	shuffled := build(perm, opts...)
	// a ring with history: other members came and went before
	hist := cluster.NewRing(cluster.WithReplication(rf), cluster.WithVirtualNodes(vn))
	other := genIDs(rng, 1+rng.Intn(6))
	hist.Build(nodes(other))
	_ = hist.Lookup("warm")
	hist.Build(nodes(append(slices.Clone(other), ids...)[:max(len(other), len(ids))]))
	hist.Build(nodes(perm))
	// same identities at other addresses / states / incarnations
	alt := nodes(ids)
	for _, a := range alt {
		a.Address = "elsewhere:1"
		a.State = cluster.NodeSuspect
		a.Incarnation = rng.Uint64()
	}
	moved := cluster.NewRing(opts...)
	moved.Build(alt)
	var removed string
	var smaller, bigger *cluster.Ring
	if n > 0 {
		k := rng.Intn(n)
		removed = ids[k]
		smaller = build(append(slices.Clone(ids[:k]), ids[k+1:]...), opts...)
	}
	added := "added-" + fmt.Sprint(rng.Int63())
	bigger = build(append(slices.Clone(ids), added), opts...)
	h1, h2 := base.VNodeHashes(), shuffled.VNodeHashes()
	sort.Strings(h1)
	sort.Strings(h2)
	if !slices.Equal(h1, h2) {
		r.Violate("vnodes-order", "virtual nodes depend on insertion order for %q", ids)
	}
	if len(h1) != n*vn {
		r.Violate("vnodes-count", "ring of %d members x %d virtual nodes holds %d positions", n, vn, len(h1))
	}
	for k := 0; k < 12; k++ {
		key := genKey(rng)
		own := strs(base.Lookup(key))
		ckey := fmt.Sprintf("%q|%d|%d|%q", ids, vn, rf, key)
		r.Case(ckey, n >= 2)
		r.Add("lookups", 1)
		want := min(rf, n)
		if len(own) != want {
			r.Violate("owner-count", "%d members rf %d vnodes %d: key %q has %d owners %q", n, rf, vn, key, len(own), own)
			continue
		}
		seen := map[string]bool{}
		for _, o := range own {
			if seen[o] || !slices.Contains(ids, o) {
				r.Violate("owner-identity", "key %q owners %q: duplicate or foreign owner (members %q)", key, own, ids)
			}
			seen[o] = true
		}
		for name, o := range map[string]*cluster.Ring{"order": shuffled, "history": hist, "address": moved} {
			if got := strs(o.Lookup(key)); !slices.Equal(got, own) {
				r.Violate("determinism-"+name, "key %q: owners %q vs %q on a ring of the same members built in another way (%s); members %q rf %d vn %d", key, own, got, name, ids, rf, vn)
			}
		}
		if got := strs(base.Lookup(key)); !slices.Equal(got, own) {
			r.Violate("determinism-repeat", "key %q: second lookup gives %q, first %q", key, got, own)
		}
		if smaller != nil {
			got := strs(smaller.Lookup(key))
			w := without(own, removed)
			if len(got) < len(w) || !slices.Equal(got[:len(w)], w) || (len(w) == len(own) && !slices.Equal(got, own)) {
				r.Violate("stability-remove", "removing %q changed key %q from %q to %q: survivors must keep their order", removed, key, own, got)
			}
			if len(w) < len(own) {
				r.Add("owner_lists_changed_by_remove", 1)
			}
		}
		got := strs(bigger.Lookup(key))
		w := without(got, added)
		if len(w) > len(own) || !slices.Equal(own[:len(w)], w) {
			r.Violate("stability-add", "adding a member changed key %q from %q to %q: existing owners must keep their order", key, own, got)
		}
		if len(w) < len(got) {
			r.Add("owner_lists_changed_by_add", 1)
		}
		// monotone in the replication factor: a smaller factor is a prefix
		if rf > 1 && k < 3 {
			p := strs(build(ids, cluster.WithVirtualNodes(vn), cluster.WithReplication(rf-1)).Lookup(key))
			if len(p) > len(own) || !slices.Equal(own[:len(p)], p) {
				r.Violate("prefix", "owners at rf %d %q are not a prefix of those at rf %d %q", rf-1, p, rf, own)
			}
		}
		if k == 0 && i < 3 {
			r.Sample("placement", map[string]any{"members": ids, "vnodes": vn, "rf": rf, "key": key, "owners": own, "after_removing": removed})
		}
	}
}

// spread: every member is primary for a share of keys; with 64+ virtual nodes no member owns
// more than 2.5x or less than 0.3x its fair share (bounds far outside the statistical spread).
func spread(r *kit.Run) {
	for i := 0; i < r.N(30, 300); i++ {
		rng := r.Rand("spread", i)
		n := 2 + rng.Intn(9)
		vn := []int{64, 128, 200, 256}[rng.Intn(4)]
		ids := genIDs(rng, n)
		ring := build(ids, cluster.WithVirtualNodes(vn), cluster.WithReplication(1+rng.Intn(3)))
		cnt := map[string]int{}
		const keys = 6000
		for k := 0; k < keys; k++ {
			cnt[string(ring.Lookup(fmt.Sprintf("k-%d-%d", i, k))[0])]++
		}
		fair := float64(keys) / float64(n)
		for _, id := range ids {
			share := float64(cnt[id]) / fair
			if share < 0.3 || share > 2.5 {
				r.Violate("spread", "member %q of %d (vnodes %d) is primary for %.2fx its fair share", id, n, vn, share)
			}
			r.Max("max_share_percent", int64(share*100))
		}
		r.Case(fmt.Sprintf("spread|%q|%d", ids, vn), true)
	}
}

// viaMembership: two nodes that learned the same members in different orders, with removals and
// rejoins in between, place keys identically.
func viaMembership(r *kit.Run) {
	for i := 0; i < r.N(300, 3000); i++ {
		rng := r.Rand("member", i)
		n := 1 + rng.Intn(10)
		ids := genIDs(rng, n)
		rf := 1 + rng.Intn(4)
		mk := func() *cluster.Membership {
			ring := cluster.NewRing(cluster.WithReplication(rf), cluster.WithVirtualNodes(64))
			m := cluster.NewMembership(ring)
			perm := rng.Perm(n)
			for _, p := range perm {
				m.Upsert(cluster.NewNode(ids[p], "a:1"))
				if rng.Intn(4) == 0 {
					m.Upsert(cluster.NewNode("temp", "a:2"))
				}
				if rng.Intn(4) == 0 {
					m.Mark(cluster.NodeID(ids[p]), cluster.NodeSuspect)
				}
				if rng.Intn(6) == 0 {
					m.Remove(cluster.NodeID(ids[p]))
					m.Upsert(cluster.NewNode(ids[p], "a:3"))
				}
			}
			m.Remove("temp")
			return m
		}
		a, b := mk(), mk()
		ref := build(ids, cluster.WithReplication(rf), cluster.WithVirtualNodes(64))
		for k := 0; k < 30; k++ {
			key := genKey(rng)
			x, y, z := strs(a.Ring().Lookup(key)), strs(b.Ring().Lookup(key)), strs(ref.Lookup(key))
			r.Case(fmt.Sprintf("m|%q|%d|%q", ids, rf, key), n >= 2)
			if !slices.Equal(x, y) || !slices.Equal(x, z) {
				r.Violate("views-disagree", "two views of members %q place key %q on %q and %q (fresh ring: %q)", ids, key, x, y, z)
			}
		}
	}
}

func defaults(r *kit.Run) {
	def := cluster.NewRing()
	for _, o := range []cluster.RingOption{cluster.WithVirtualNodes(0), cluster.WithVirtualNodes(-3), cluster.WithReplication(0), cluster.WithReplication(-1)} {
		x := cluster.NewRing(o)
		if x.Replication() != def.Replication() || x.VirtualNodesPerNode() != def.VirtualNodesPerNode() {
			r.Violate("defaults", "a non-positive ring option changed the defaults to rf %d vnodes %d", x.Replication(), x.VirtualNodesPerNode())
		}
		r.Case("defaults", true)
	}
	if def.Replication() != 1 || def.VirtualNodesPerNode() < 1 {
		r.Violate("defaults", "default ring has rf %d, %d virtual nodes", def.Replication(), def.VirtualNodesPerNode())
	}
	if l := def.Lookup("k"); len(l) != 0 {
		r.Violate("empty", "an empty ring names owners %q", strs(l))
	}
	def.Build(nil)
	if l := def.Lookup("k"); len(l) != 0 {
		r.Violate("empty", "a ring built of no members names owners %q", strs(l))
	}
	// a node identity derived from an address is stable and distinct
	seen := map[cluster.NodeID]string{}
	for i := 0; i < 3000; i++ {
		addr := fmt.Sprintf("10.%d.%d.1:%d", i%7, i/7, 7000+i%13)
		a, b := cluster.NewNode("", addr), cluster.NewNode("", addr)
		if a.ID != b.ID || a.ID == "" {
			r.Violate("derived-id", "address %s gives identities %q and %q", addr, a.ID, b.ID)
		}
		if o, dup := seen[a.ID]; dup && o != addr {
			r.Violate("derived-id", "addresses %s and %s share identity %q", o, addr, a.ID)
		}
		seen[a.ID] = addr
		if c := cluster.NewNode("given", addr); c.ID != "given" || c.Address != addr || c.State != cluster.NodeAlive {
			r.Violate("given-id", "node constructed as %+v", c)
		}
	}
	// mutating returned slices or the input slice after Build must not change placement
	in := nodes([]string{"a", "b", "c", "d"})
	ring := cluster.NewRing(cluster.WithReplication(3))
	ring.Build(in)
	want := strs(ring.Lookup("key"))
	l := ring.Lookup("key")
	l[0] = "evil"
	in[0], in[1] = in[2], in[3]
	if got := strs(ring.Lookup("key")); !slices.Equal(got, want) {
		r.Violate("aliasing", "placement changed from %q to %q after the caller modified its own slices", want, got)
	}
	r.Case("aliasing", true)
}
