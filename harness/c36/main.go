// C36: draining refuses writes, stopping is clean.
//
// Oracle: a client write or removal that begins after Drain returned has to fail with the draining error and leave every
// copy as it was, one that ended before Drain was called must not; reads go on, other nodes go on, /health says 503. A
// stop under load (all features on, peers hanging, several stops at once) has to return, refuse new connections, make
// no call of its own afterwards, let every pending client operation return and leave no goroutine of the node behind,
// while the nodes that stay answer for their keys. Everything runs under the race detector.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var ctx = context.Background()

func main() {
	kit.Main("C36", "an operation judged against the drain state, or a stop under load with its aftermath", func(r *kit.Run) {
		history(r)
		racing(r)
		stopping(r)
		hung(r)
	})
}

var hc = &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func get(method, url, token string) (int, string) {
	req, _ := http.NewRequestWithContext(ctx, method, url, nil)
	if token != "" {
		req.Header.Set("Authorization", "Bearer "+token)
	}
	resp, err := hc.Do(req)
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b)
}

type copyOf struct {
	ver uint64
	org string
	val any
}

func copies(cl *dcl.Cluster, keys []string) map[string]copyOf {
	out := map[string]copyOf{}
	for _, k := range keys {
		for id, it := range cl.Holders(k) {
			out[id+"/"+k] = copyOf{it.Version, it.Origin, fmt.Sprint(dcl.Plain(it.Value))}
		}
	}
	return out
}

func same(a, b map[string]copyOf) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// history: one client, so that every effect is known.
func history(r *kit.Run) {
	if !r.Phase("history") {
		return
	}
	for i := 0; i < r.N(60, 1500); i++ {
		g := r.Rand("history", i)
		n := 1 + g.Intn(5)
		rf := 1 + g.Intn(min(n, 3))
		token := ""
		if g.Intn(2) == 0 {
			token = "tok"
		}
		conf := dcl.Conf{N: n, RF: rf, HTTP: i%3 == 0, Plain: i%3 == 1, Auth: backend.DistHTTPAuth{Token: token}}
		lvl := backend.ConsistencyLevel(g.Intn(3))
		conf.Opts = func(int) []backend.DistMemoryOption {
			return []backend.DistMemoryOption{backend.WithDistWriteConsistency(lvl), backend.WithDistReadConsistency(lvl)}
		}
		cl := dcl.New(conf)
		one(r, g, i, cl, conf, token)
		cl.Stop()
	}
}

func one(r *kit.Run, g *rand.Rand, i int, cl *dcl.Cluster, conf dcl.Conf, token string) {
	label := fmt.Sprintf("history %d (n %d rf %d http %v)", i, conf.N, conf.RF, conf.HTTP)
	var log []string
	say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	bad := func(sig, f string, a ...any) {
		r.ViolateWith(sig, log, "%s: %s", label, fmt.Sprintf(f, a...))
	}
	var keys []string
	for k := 0; k < 6; k++ {
		keys = append(keys, fmt.Sprintf("k%d", k))
	}
	model := map[string]string{}
	drained := map[string]int64{}
	for s := 0; s < 40; s++ {
		x := cl.Any(g)
		k := keys[g.Intn(len(keys))]
		_, off := drained[x.ID]
		switch g.Intn(9) {
		case 0, 1, 2:
			v := fmt.Sprintf("v%d", s)
			before := copies(cl, keys)
			err := x.DM.Set(ctx, dcl.Item(k, v, 0))
			say("set %s=%s at %s (draining %v): %v", k, v, x.ID, off, err)
			r.Case("set/"+label, true)
			switch {
			case off && !errors.Is(err, sentinel.ErrDraining):
				bad("drain-write", "Set at the draining %s gave %v", x.ID, err)
			case off && !same(before, copies(cl, keys)):
				bad("drain-write-effect", "a Set refused by the draining %s changed copies: %v -> %v", x.ID, before, copies(cl, keys))
			case !off && err != nil:
				bad("write-elsewhere", "Set of %s at %s, which does not drain (%v do), gave %v", k, x.ID, drained, err)
			case !off:
				model[k] = v
			}
		case 3:
			ks := []string{k}
			if g.Intn(2) == 0 {
				ks = append(ks, keys[g.Intn(len(keys))])
			}
			before := copies(cl, keys)
			err := x.DM.Remove(ctx, ks...)
			say("remove %v at %s (draining %v): %v", ks, x.ID, off, err)
			r.Case("remove/"+label, true)
			switch {
			case off && !errors.Is(err, sentinel.ErrDraining):
				bad("drain-remove", "Remove at the draining %s gave %v", x.ID, err)
			case off && !same(before, copies(cl, keys)):
				bad("drain-remove-effect", "a Remove refused by the draining %s changed copies: %v -> %v", x.ID, before, copies(cl, keys))
			case !off && err != nil:
				bad("remove-elsewhere", "Remove of %v at %s, which does not drain (%v do), gave %v", ks, x.ID, drained, err)
			case !off:
				for _, d := range ks {
					delete(model, d)
				}
			}
		case 4, 5, 6:
			it, ok := x.DM.Get(ctx, k)
			want, has := model[k]
			r.Case("get/"+label, off)
			if ok != has || ok && fmt.Sprint(dcl.Plain(it.Value)) != want {
				bad("read", "Get of %s at %s (draining %v) found %v %v, expected %v %q", k, x.ID, off, ok, it, has, want)
			}
		default:
			if len(drained) == conf.N-1 && !off && g.Intn(2) == 0 {
				continue // mostly leave one that works
			}
			if g.Intn(3) > 0 && !off && g.Intn(2) == 0 {
				continue
			}
			times := 1 + g.Intn(3)
			for t := 0; t < times; t++ {
				if conf.HTTP && g.Intn(2) == 0 {
					url := "http://" + x.DM.LocalNodeAddr() + "/dist/drain"
					if token != "" {
						if st, _ := get("POST", url, "wrong"); st != 401 {
							bad("drain-auth", "POST /dist/drain with a wrong token answered %d", st)
						}
						if x.DM.IsDraining() != (off || t > 0) {
							bad("drain-auth", "a refused POST /dist/drain drained the node")
						}
					}
					st, body := get("POST", url, token)
					if st != 200 {
						bad("drain-http", "POST /dist/drain answered %d %s", st, body)
					}
				} else if err := x.DM.Drain(ctx); err != nil {
					bad("drain-error", "Drain number %d gave %v", t+1, err)
				}
			}
			drained[x.ID] = 1
			say("drain %s", x.ID)
		}
		if conf.HTTP && g.Intn(4) == 0 {
			y := cl.Any(g)
			_, yoff := drained[y.ID]
			st, body := get("GET", "http://"+y.DM.LocalNodeAddr()+"/health", token)
			r.Case("health/"+label, yoff)
			if yoff && st != 503 || !yoff && st != 200 {
				bad("health", "/health of %s (draining %v) answered %d %q", y.ID, yoff, st, body)
			}
			z := cl.Any(g)
			if z != y {
				err := cl.HTTPTransport(conf, z).Health(ctx, y.ID)
				if (err != nil) != yoff {
					bad("health-peer", "a peer's health check of %s (draining %v) gave %v", y.ID, yoff, err)
				}
			}
		}
	}
	for _, x := range cl.Nodes {
		_, off := drained[x.ID]
		if x.DM.IsDraining() != off {
			bad("drain-flag", "IsDraining of %s is %v, drained %v", x.ID, x.DM.IsDraining(), off)
		}
		if d := x.DM.Metrics().Drains; d != drained[x.ID] {
			bad("drain-count", "%s counts %d drains, expected %d", x.ID, d, drained[x.ID])
		}
		r.Seen("drained", fmt.Sprint(off))
		for _, k := range keys {
			it, ok := x.DM.Get(ctx, k)
			want, has := model[k]
			if ok != has || ok && fmt.Sprint(dcl.Plain(it.Value)) != want {
				bad("read", "in the end Get of %s at %s (draining %v) found %v %v, expected %v %q", k, x.ID, off, ok, it, has, want)
			}
		}
	}
	r.Sample("drain history", log)
}

// racing: operations overlap the drains; only those wholly before or after are judged, and refused writes must not
// surface anywhere.
func racing(r *kit.Run) {
	if !r.Phase("racing") {
		return
	}
	for i := 0; i < r.N(30, 1500); i++ {
		g := r.Rand("racing", i)
		n := 2 + g.Intn(3)
		cl := dcl.New(dcl.Conf{N: n, RF: 1 + g.Intn(2), HTTP: i%5 == 0})
		label := fmt.Sprintf("racing %d (n %d)", i, n)
		type mark struct{ called, done atomic.Bool }
		marks := make([]mark, n)
		var mu sync.Mutex
		refused := map[string]string{} // value -> key
		var wg sync.WaitGroup
		var stop atomic.Bool
		for w := 0; w < 6; w++ {
			gw := r.Rand("racing-worker", i, w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := 0; !stop.Load() && s < 4000; s++ {
					x := gw.Intn(n)
					k := fmt.Sprintf("k%d", gw.Intn(8))
					v := fmt.Sprintf("w%d-%d", w, s)
					after := marks[x].done.Load()
					var err error
					rem := gw.Intn(4) == 0
					if rem {
						err = cl.Nodes[x].DM.Remove(ctx, k)
					} else {
						err = cl.Nodes[x].DM.Set(ctx, dcl.Item(k, v, 0))
					}
					before := !marks[x].called.Load()
					is := errors.Is(err, sentinel.ErrDraining)
					r.Case("op", after || before)
					if after && !is {
						r.Violate("race-accepted", "%s: a write (removal %v) begun at %s after its Drain had returned gave %v", label, rem, cl.Nodes[x].ID, err)
					}
					if before && is {
						r.Violate("race-refused", "%s: a write (removal %v) at %s failed with the draining error before any Drain", label, rem, cl.Nodes[x].ID)
					}
					if after {
						r.Add("ops after drain", 1)
					} else if !before {
						r.Add("ops overlapping drain", 1)
					}
					if is && !rem {
						mu.Lock()
						refused[v] = k
						mu.Unlock()
					}
					if !rem && gw.Intn(3) == 0 {
						if it, ok := cl.Nodes[gw.Intn(n)].DM.Get(ctx, k); ok {
							got := fmt.Sprint(dcl.Plain(it.Value))
							mu.Lock()
							_, bad := refused[got]
							mu.Unlock()
							if bad {
								r.Violate("race-leak", "%s: a value whose write was refused by draining was read: %s=%s", label, k, got)
							}
						}
					}
				}
			}()
		}
		for _, x := range g.Perm(n)[:1+g.Intn(n)] {
			time.Sleep(time.Duration(g.Intn(3000)) * time.Microsecond)
			marks[x].called.Store(true)
			var dg sync.WaitGroup
			for t := 0; t < 1+g.Intn(4); t++ {
				dg.Add(1)
				go func() { defer dg.Done(); _ = cl.Nodes[x].DM.Drain(ctx) }()
			}
			dg.Wait()
			marks[x].done.Store(true)
			if d := cl.Nodes[x].DM.Metrics().Drains; d != 1 {
				r.Violate("drain-count", "%s: concurrent Drains were counted %d times", label, d)
			}
		}
		time.Sleep(2 * time.Millisecond)
		stop.Store(true)
		wg.Wait()
		for k := 0; k < 8; k++ {
			key := fmt.Sprintf("k%d", k)
			for id, it := range cl.Holders(key) {
				if _, bad := refused[fmt.Sprint(dcl.Plain(it.Value))]; bad {
					r.Violate("race-leak", "%s: %s holds %s=%v, whose write was refused by draining", label, id, key, it.Value)
				}
			}
		}
		cl.Stop()
	}
}

// full switches everything on.
func full(int) []backend.DistMemoryOption {
	return []backend.DistMemoryOption{
		backend.WithDistWriteConsistency(backend.ConsistencyOne), backend.WithDistReadConsistency(backend.ConsistencyQuorum),
		backend.WithDistHeartbeat(5*time.Millisecond, 50*time.Millisecond, 120*time.Millisecond),
		backend.WithDistIndirectProbes(2, 20*time.Millisecond),
		backend.WithDistGossipInterval(5 * time.Millisecond),
		backend.WithDistMerkleAutoSync(7 * time.Millisecond),
		backend.WithDistRebalanceInterval(5 * time.Millisecond),
		backend.WithDistHintTTL(time.Second), backend.WithDistHintReplayInterval(3 * time.Millisecond),
		backend.WithDistTombstoneTTL(50 * time.Millisecond), backend.WithDistTombstoneSweep(5 * time.Millisecond),
		backend.WithDistReadRepairBatch(4*time.Millisecond, 4), backend.WithDistParallelReads(true),
	}
}

// stopping: some nodes are stopped (drained before, or not) while clients of all of them are busy.
func stopping(r *kit.Run) {
	if !r.Phase("stopping") {
		return
	}
	kit.Drained(0, 5*time.Second)
	for i := 0; i < r.N(50, 900); i++ {
		g := r.Rand("stopping", i)
		stopRound(r, g, i)
		if r.Violations() > 5 {
			return
		}
	}
}

func stopRound(r *kit.Run, g *rand.Rand, i int) {
	n := 2 + g.Intn(4)
	conf := dcl.Conf{N: n, RF: 1 + g.Intn(3), HTTP: i%2 == 0, Opts: full,
		Limits: backend.DistHTTPLimits{ClientTimeout: 2 * time.Second, ReadTimeout: time.Second, WriteTimeout: time.Second, IdleTimeout: time.Second}}
	if conf.RF > n {
		conf.RF = n
	}
	base := len(kit.RepoGoroutines())
	cl := dcl.New(conf)
	label := fmt.Sprintf("stopping %d (n %d rf %d http %v)", i, n, conf.RF, conf.HTTP)
	gone := map[string]*atomic.Bool{} // nothing of the harness calls it any more
	stopped := map[string]*atomic.Bool{}
	for _, x := range cl.Nodes {
		gone[x.ID], stopped[x.ID] = &atomic.Bool{}, &atomic.Bool{}
	}
	cl.Net.Watch(func(c dcl.Call) {
		if stopped[c.From].Load() {
			r.ViolateWith("call-after-stop", c, "%s: %s called %s of %s though it was stopped and no client uses it", label, c.From, c.Op, c.To)
		}
		r.Add("calls watched", 1)
	})
	var wg sync.WaitGroup
	var over atomic.Bool
	busy := make([]atomic.Int64, n) // operations under way at the node
	for w := 0; w < 8; w++ {
		gw := r.Rand("stopping-worker", i, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := 0; !over.Load(); s++ {
				x := gw.Intn(n)
				if gone[cl.Nodes[x].ID].Load() {
					time.Sleep(100 * time.Microsecond)
					continue
				}
				busy[x].Add(1)
				dm := cl.Nodes[x].DM
				k := fmt.Sprintf("k%d", gw.Intn(40))
				switch gw.Intn(8) {
				case 0, 1, 2:
					_ = dm.Set(ctx, dcl.Item(k, fmt.Sprintf("w%d-%d", w, s), time.Duration(gw.Intn(2))*time.Second))
				case 3, 4:
					_, _ = dm.Get(ctx, k)
				case 5:
					_ = dm.Remove(ctx, k)
				case 6:
					_, _ = dm.ListKeys(ctx, "", 0)
				default:
					_ = dm.Metrics()
					_ = dm.DistMembershipSnapshot()
					_ = dm.Count(ctx)
				}
				busy[x].Add(-1)
				r.Case("op under stop", true)
			}
		}()
	}
	time.Sleep(time.Duration(5+g.Intn(40)) * time.Millisecond)
	order := g.Perm(n)
	k := 1 + g.Intn(n)
	if g.Intn(4) > 0 && k == n {
		k = n - 1
	}
	halt := func(x int, g2 *rand.Rand) {
		node := cl.Nodes[x]
		if g2.Intn(2) == 0 {
			_ = node.DM.Drain(ctx)
		}
		var sg sync.WaitGroup
		for t := 0; t < 1+g2.Intn(3); t++ {
			sg.Add(1)
			go func() {
				defer sg.Done()
				c, cancel := context.WithTimeout(ctx, 10*time.Second)
				defer cancel()
				t0 := time.Now()
				err := node.DM.Stop(c)
				if err != nil {
					r.Violate("stop-error", "%s: Stop of %s gave %v", label, node.ID, err)
				}
				d := time.Since(t0)
				r.Max("longest stop ms", d.Milliseconds())
				if d > 8*time.Second {
					r.Violate("stop-slow", "%s: Stop of %s took %v", label, node.ID, d)
				}
			}()
		}
		sg.Wait()
		r.Add("stops", 1)
		if conf.HTTP {
			if c, err := net.DialTimeout("tcp", node.DM.LocalNodeAddr(), time.Second); err == nil {
				_ = c.Close()
				r.Violate("listener", "%s: %s still accepts connections after Stop returned", label, node.ID)
			}
		}
		gone[node.ID].Store(true)
		cl.Net.Down(node.ID, true) // in process its peers would still reach it
		if !dcl.Eventually(8*time.Second, func() bool { return busy[x].Load() == 0 }) {
			r.Violate("stuck-op", "%s: client operations at %s still hang 8s after its Stop\n%s", label, node.ID, kit.RepoGoroutines())
		}
	}
	if g.Intn(2) == 0 { // all at once
		var hg sync.WaitGroup
		for _, x := range order[:k] {
			g2 := r.Rand("stopping-halt", i, x)
			hg.Add(1)
			go func() { defer hg.Done(); halt(x, g2) }()
		}
		hg.Wait()
	} else {
		for _, x := range order[:k] {
			halt(x, g)
		}
	}
	time.Sleep(60 * time.Millisecond) // what was under way ends
	for _, x := range order[:k] {
		stopped[cl.Nodes[x].ID].Store(true)
	}
	time.Sleep(30 * time.Millisecond)
	over.Store(true)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		r.Violate("stuck-op", "%s: client operations still hang 30s after the stops\n%s", label, kit.RepoGoroutines())
		return
	}
	rest := order[k:]
	for _, x := range rest { // the others see them leave, and go on
		for _, y := range order[:k] {
			cl.Nodes[x].M.Remove(cluster.NodeID(cl.Nodes[y].ID))
		}
	}
	for _, x := range rest {
		key := fmt.Sprintf("after-%d", x)
		// A node stopped while reading membership may be re-added by gossip that was under way; heartbeats drop it again.
		ok := dcl.Eventually(5*time.Second, func() bool {
			if err := cl.Nodes[x].DM.Set(ctx, dcl.Item(key, "v", 0)); err != nil {
				return false
			}
			it, ok := cl.Nodes[x].DM.Get(ctx, key)
			return ok && fmt.Sprint(dcl.Plain(it.Value)) == "v"
		})
		r.Case("survivor", true)
		if !ok {
			err := cl.Nodes[x].DM.Set(ctx, dcl.Item(key, "v", 0))
			r.Violate("survivor", "%s: with %d nodes stopped %s neither takes nor returns a value (%v); members %v", label, k, cl.Nodes[x].ID, err, cl.Nodes[x].DM.DistMembershipSnapshot())
		}
		for y := 0; y < 8; y++ {
			kk := fmt.Sprintf("k%d", y)
			var err error
			if !dcl.Eventually(5*time.Second, func() bool { err = cl.Nodes[x].DM.Set(ctx, dcl.Item(kk, "z", 0)); return err == nil }) {
				r.Violate("survivor", "%s: with %d nodes stopped and gone from its view %s refuses to set %s: %v", label, k, cl.Nodes[x].ID, kk, err)
			}
		}
	}
	for _, x := range rest {
		halt(x, g)
	}
	if conf.HTTP { // the addresses are free again
		for _, x := range cl.Nodes {
			ln, err := net.Listen("tcp", x.DM.LocalNodeAddr())
			if err != nil {
				r.Violate("address", "%s: the address of the stopped %s is still taken: %v", label, x.ID, err)
				continue
			}
			_ = ln.Close()
		}
	}
	if left := kit.Drained(base, 10*time.Second); left != nil {
		r.ViolateWith("goroutines", left, "%s: %d goroutines of the stopped cluster are left", label, len(left))
	}
	r.Seen("stopped", fmt.Sprintf("%d of %d http=%v", k, n, conf.HTTP))
}

// hung: a peer accepts connections and never answers; stopping the node that talks to it must not wait for it beyond
// the client timeout.
func hung(r *kit.Run) {
	if !r.Phase("hung") {
		return
	}
	for i := 0; i < r.N(12, 200); i++ {
		g := r.Rand("hung", i)
		base := len(kit.RepoGoroutines())
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Inconclusive(err.Error())
			return
		}
		var conns []net.Conn
		var mu sync.Mutex
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				conns = append(conns, c)
				mu.Unlock()
			}
		}()
		conf := dcl.Conf{N: 2, RF: 3, HTTP: true, Opts: full, Limits: backend.DistHTTPLimits{ClientTimeout: 200 * time.Millisecond}}
		cl := dcl.New(conf)
		for _, x := range cl.Nodes {
			x.M.Upsert(cluster.NewNode("hung", ln.Addr().String()))
		}
		label := fmt.Sprintf("hung %d", i)
		var wg sync.WaitGroup
		var over atomic.Bool
		for w := 0; w < 4; w++ {
			gw := r.Rand("hung-worker", i, w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := 0; !over.Load(); s++ {
					dm := cl.Nodes[gw.Intn(2)].DM
					k := fmt.Sprintf("k%d", gw.Intn(20))
					if gw.Intn(2) == 0 {
						_ = dm.Set(ctx, dcl.Item(k, "v", 0))
					} else {
						_, _ = dm.Get(ctx, k)
					}
					r.Case("op with a hung peer", true)
				}
			}()
		}
		time.Sleep(time.Duration(20+g.Intn(200)) * time.Millisecond)
		for _, x := range cl.Nodes {
			c, cancel := context.WithTimeout(ctx, 10*time.Second)
			t0 := time.Now()
			_ = x.DM.Stop(c)
			cancel()
			d := time.Since(t0)
			r.Max("longest stop with a hung peer ms", d.Milliseconds())
			if d > 8*time.Second {
				r.Violate("stop-hung", "%s: Stop of %s took %v with a peer that hangs (client timeout 200ms)", label, x.ID, d)
			}
		}
		over.Store(true)
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			r.Violate("stuck-op", "%s: client operations still hang 30s after the stops\n%s", label, kit.RepoGoroutines())
			return
		}
		_ = ln.Close()
		mu.Lock()
		for _, c := range conns {
			_ = c.Close()
		}
		mu.Unlock()
		if left := kit.Drained(base, 10*time.Second); left != nil {
			r.ViolateWith("goroutines", left, "%s: %d goroutines of the stopped cluster are left", label, len(left))
		}
	}
}
