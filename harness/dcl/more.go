package dcl

import (
	"context"
	"encoding/json"
	"math/rand"
	"time"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Levels are the consistency levels by name.
var Levels = map[string]backend.ConsistencyLevel{"ONE": backend.ConsistencyOne, "QUORUM": backend.ConsistencyQuorum, "ALL": backend.ConsistencyAll}

// LevelNames in a fixed order.
var LevelNames = []string{"ONE", "QUORUM", "ALL"}

// Required is the number of owners a level asks for, as documented.
func Required(level string, owners int) int {
	switch level {
	case "ALL":
		return owners
	case "QUORUM":
		return owners/2 + 1
	}
	return 1
}

// Holders are the nodes that hold a live copy of a key.
func (cl *Cluster) Holders(key string) map[string]*cache.Item {
	out := map[string]*cache.Item{}
	for _, n := range cl.Nodes {
		if it, ok := cl.Local(n.ID, key); ok {
			out[n.ID] = it
		}
	}
	return out
}

// OwnersSeenBy is a node's own view of who owns a key.
func (n *Node) OwnersSeenBy(key string) []string {
	var s []string
	for _, o := range n.M.Ring().Lookup(key) {
		s = append(s, string(o))
	}
	return s
}

// Has reports whether list contains s.
func Has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// After orders copies as the documentation does: the higher version wins, ties go to the smaller origin.
func After(v1 uint64, o1 string, v2 uint64, o2 string) bool {
	return v1 > v2 || v1 == v2 && o1 < o2
}

// SyncAll runs anti-entropy between every ordered pair of nodes, the given number of rounds.
func (cl *Cluster) SyncAll(rounds int) error {
	for i := 0; i < rounds; i++ {
		for _, a := range cl.Nodes {
			for _, b := range cl.Nodes {
				if a != b {
					if err := a.DM.SyncWith(context.Background(), b.ID); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

// Eventually polls until f holds.
func Eventually(limit time.Duration, f func() bool) bool {
	for t := time.Now(); ; time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
		if time.Since(t) > limit {
			return false
		}
	}
}

// Faults draws a failure pattern: which nodes are down, which links cut.
func (cl *Cluster) Faults(g *rand.Rand, nodes, links int) {
	cl.Net.Heal()
	for i := 0; i < nodes; i++ {
		cl.Net.Down(cl.Any(g).ID, true)
	}
	for i := 0; i < links; i++ {
		a, b := cl.Any(g).ID, cl.Any(g).ID
		if a != b {
			cl.Net.Cut(a, b, true)
		}
	}
}

// Reaches reports whether a call from a gets to b.
func (n *Net) Reaches(a, b string) bool { return a == b || !n.blocked(a, b) }

// Plain is a value as its reader sees it: copies that came over HTTP carry the JSON form of what was stored.
func Plain(v any) any {
	if raw, ok := v.(json.RawMessage); ok {
		var out any
		if json.Unmarshal(raw, &out) == nil {
			return out
		}
	}
	return v
}
