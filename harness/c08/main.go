// C08: client topology view follows the cluster, never goes empty, and closes cleanly.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/farm"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

func main() {
	kit.Main("C08", "random histories of membership answers (alive, suspect, dead members, empty and full-URL addresses), refresh failures and endpoint outages against a reference view; "+
		"background refresh, repeated and concurrent Close, all methods at once under the race detector, goroutines counted; non-trivial = a history with a refresh that changed or had to keep the view", run)
}

func run(r *kit.Run) {
	f := farm.New(6)
	defer f.Close()
	if r.Phase("histories") {
		for i := 0; i < r.N(1200, 30000); i++ {
			history(r, f, r.Rand("hist", i), i)
		}
	}
	if r.Phase("recovery") {
		for i := 0; i < r.N(150, 3000); i++ {
			recovery(r, f, r.Rand("rec", i), i)
		}
	}
	if r.Phase("close") {
		for i := 0; i < r.N(60, 1200); i++ {
			closing(r, f, r.Rand("close", i), i)
		}
	}
	if r.Phase("loop") {
		loop(r, f)
	}
	if r.Phase("parallel") {
		for i := 0; i < r.N(20, 300); i++ {
			parallel(r, f, r.Rand("par", i), i)
		}
	}
	if r.Phase("goroutines") {
		goroutines(r, f)
	}
}

type member struct {
	ID      string `json:"id"`
	Address string `json:"address"`
	State   string `json:"state"`
	Inc     int    `json:"incarnation"`
}

func membersReply(ms []member) farm.Reply {
	b, _ := json.Marshal(map[string]any{"members": ms, "replication": 3, "virtual_nodes": 64})
	return farm.Reply{Status: 200, Body: b, Header: map[string]string{"Content-Type": "application/json"}}
}

var broken = []farm.Reply{{Status: 500}, {Status: 503}, {Status: 401}, {Status: 403}, {Status: 404}, {Mode: "reset"}, {Mode: "garbage"}, {Mode: "close"}, {Status: 200, Body: []byte("{")},
	{Status: 200, Body: []byte("<html>")}, {Status: 200}, {Status: 200, Body: []byte(`{"members":"x"}`)}, {Status: 200, Body: []byte(`{"members":[{"address":5}]}`)}, {Status: 300, Body: []byte(`{"members":[{"id":"x","address":"127.0.0.1:9","state":"alive"}]}`)}}

func sorted(s []string) []string {
	s = slices.Clone(s)
	slices.Sort(s)
	return slices.Compact(s)
}

func history(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	nseed := 1 + rng.Intn(3)
	var seeds []string
	for j := 0; j < nseed; j++ {
		seeds = append(seeds, f.URL(j))
	}
	f.Script(farm.OK)
	c, err := client.New(seeds, client.WithHTTPClient(farm.FreshClient(10*time.Second)))
	if err != nil {
		r.Violate("construct", "%v", err)
		return
	}
	view := sorted(seeds)
	check := func(when string) {
		got := c.Endpoints()
		if len(got) == 0 {
			r.Violate("view-empty", "the endpoint view is empty %s", when)
		} else if !slices.Equal(sorted(got), view) {
			r.Violate("view-wrong", "the endpoint view is %v, want %v %s", sorted(got), view, when)
		}
		if len(got) > 0 { // the snapshot is the caller's
			got[0] = "http://mutated"
			if slices.Contains(c.Endpoints(), "http://mutated") {
				r.Violate("view-aliased", "changing the snapshot changes the client's view")
			}
		}
	}
	check("initially")
	steps := 1 + rng.Intn(8)
	trace := ""
	for s := 0; s < steps; s++ {
		var rep farm.Reply
		fail := false
		want := view
		switch k := rng.Intn(10); {
		case k < 6:
			var ms []member
			want = nil
			for j := rng.Intn(7); j > 0; j-- {
				m := member{ID: fmt.Sprint("n", j), Address: f.Addr(rng.Intn(6)), State: []string{"alive", "alive", "suspect", "dead"}[rng.Intn(4)], Inc: rng.Intn(9)}
				switch rng.Intn(9) {
				case 0:
					m.Address = ""
				case 1:
					m.Address = "  "
				case 2:
					m.Address = f.URL(rng.Intn(6)) + "/"
				}
				ms = append(ms, m)
				a := strings.TrimSpace(m.Address)
				if a == "" || m.State == "dead" {
					continue
				}
				if !strings.Contains(a, "://") {
					a = "http://" + a
				}
				want = append(want, strings.TrimRight(a, "/"))
			}
			want = sorted(want)
			if len(want) == 0 {
				want = view
				trace += " nothing-usable"
			} else {
				trace += fmt.Sprintf(" members%d", len(want))
			}
			rep = membersReply(ms)
		case k < 9:
			rep, fail = broken[rng.Intn(len(broken))], true
			trace += fmt.Sprintf(" fail(%s%d)", rep.Mode, rep.Status)
		default:
			rep = farm.Reply{Status: 200, Body: []byte(`{"members":[]}`)}
			trace += " none"
		}
		f.Script(func(q farm.Req) farm.Reply {
			if q.URI == "/cluster/members" {
				return rep
			}
			return farm.OK(q)
		})
		err := c.RefreshTopology(context.Background())
		if fail && err == nil {
			r.Violate("refresh-false-success", "a refresh answered with %+v succeeded", rep)
		}
		if !fail && err != nil {
			r.Violate("refresh-failed", "a good membership answer was refused: %v (%s)", err, rep.Body)
		}
		if !fail {
			view = want
		}
		check("after" + trace)
		// The view is what commands use.
		if rng.Intn(3) == 0 {
			f.Script(farm.OK)
			if _, err := c.Get(context.Background(), "k"); err != nil {
				r.Violate("view-unusable", "a command failed over a healthy view %v: %v", view, err)
			}
			if log := f.Log(); len(log) == 1 && !slices.Contains(view, f.URL(log[0].Server)) {
				r.Violate("view-ignored", "a command went to %s, the view is %v", f.URL(log[0].Server), view)
			}
		}
	}
	r.Add("refreshes", int64(steps))
	r.Case(fmt.Sprint(trace, nseed), true)
	if i < 3 {
		r.Sample("history", trace)
	}
}

// recovery: the discovered endpoints all go away while a seed still answers.
func recovery(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	// seeds 0,1; discovered 2..5
	var ms []member
	n := 1 + rng.Intn(4)
	for j := 0; j < n; j++ {
		ms = append(ms, member{ID: fmt.Sprint("n", j), Address: f.Addr(2 + j), State: []string{"alive", "suspect"}[rng.Intn(2)]})
	}
	down := []farm.Reply{{Mode: "reset"}, {Status: 503}, {Status: 500}, {Mode: "close"}}[rng.Intn(4)]
	var outage atomic.Bool
	deadSeed := rng.Intn(3) // 0,1: that seed is down too, 2: both up
	newMembers := []member{{ID: "new", Address: f.Addr(0), State: "alive"}, {ID: "new2", Address: f.Addr(5), State: "suspect"}}
	f.Script(func(q farm.Req) farm.Reply {
		if outage.Load() && (q.Server >= 2 || q.Server == deadSeed) {
			return down
		}
		if q.URI == "/cluster/members" {
			if outage.Load() {
				return membersReply(newMembers)
			}
			return membersReply(ms)
		}
		return farm.OK(q)
	})
	c, _ := client.New([]string{f.URL(0), f.URL(1)}, client.WithHTTPClient(farm.FreshClient(10*time.Second)))
	if err := c.RefreshTopology(context.Background()); err != nil {
		r.Violate("refresh-failed", "%v", err)
		return
	}
	outage.Store(true)
	var err error
	viaCmd := rng.Intn(2) == 0
	where := fmt.Sprintf("%d discovered endpoints down (%s %d), seed down: %d", n, down.Mode, down.Status, deadSeed)
	if viaCmd {
		cmd := farm.Cmds[rng.Intn(len(farm.Cmds)-1)]
		err = cmd.Run(context.Background(), c)
		if err != nil { // a client may also recover at its next refresh
			if e := c.RefreshTopology(context.Background()); e == nil {
				err = cmd.Run(context.Background(), c)
			}
		}
	} else {
		err = c.RefreshTopology(context.Background())
		if err == nil {
			if got := sorted(c.Endpoints()); !slices.Equal(got, sorted([]string{f.URL(0), f.URL(5)})) {
				r.Violate("recovered-view-wrong", "after recovery the view is %v", got)
			}
		}
	}
	if err != nil {
		r.Violate("stranded", "a seed is reachable but the client cannot recover: %v (%s)", err, where)
	}
	if len(c.Endpoints()) == 0 {
		r.Violate("view-empty", "the view is empty after an outage")
	}
	r.Case(fmt.Sprint("rec", where, viaCmd), true)
}

// closing: any number of Close calls from any goroutine, with and without a refresh in flight.
func closing(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	f.Script(farm.OK)
	opts := []client.Option{client.WithHTTPClient(farm.FreshClient(10 * time.Second))}
	switch rng.Intn(4) {
	case 0:
	case 1:
		opts = append(opts, client.WithTopologyRefresh(0))
	case 2:
		opts = append(opts, client.WithTopologyRefresh(-time.Second))
	default:
		opts = append(opts, client.WithTopologyRefresh(time.Duration(1+rng.Intn(3))*time.Second))
	}
	c, err := client.New([]string{f.URL(0)}, opts...)
	if err != nil {
		r.Violate("construct", "%v", err)
		return
	}
	g := 1 + rng.Intn(8)
	start := make(chan struct{})
	done := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 3; k++ {
				r.Guard(func() {
					if err := c.Close(); err != nil {
						r.Violate("close-error", "Close: %v", err)
					}
				})
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		r.Violate("close-stuck", "%d concurrent Close calls did not return", g)
		return
	}
	// Commands still work or fail cleanly after Close; nothing panics.
	r.Guard(func() {
		_, _ = c.Get(context.Background(), "k")
		_ = c.RefreshTopology(context.Background())
		_ = c.Endpoints()
	})
	r.Add("closes", int64(3*g))
	r.Case(fmt.Sprint("close", i, g), g > 1)
}

// loop: the background refresh runs at its interval, survives failures, follows the cluster and ends with Close.
func loop(r *kit.Run, f *farm.Farm) {
	var phase atomic.Int64
	f.Script(func(q farm.Req) farm.Reply {
		if q.URI != "/cluster/members" {
			return farm.OK(q)
		}
		switch phase.Load() {
		case 0:
			return membersReply([]member{{ID: "a", Address: f.Addr(1), State: "alive"}, {ID: "b", Address: f.Addr(2), State: "suspect"}})
		case 1:
			return farm.Reply{Status: 500}
		case 2:
			return farm.Reply{Status: 200, Body: []byte("{")}
		default:
			return membersReply([]member{{ID: "a", Address: f.Addr(3), State: "alive"}, {ID: "b", Address: f.Addr(2), State: "dead"}})
		}
	})
	c, err := client.New([]string{f.URL(0)}, client.WithHTTPClient(farm.FreshClient(10*time.Second)), client.WithTopologyRefresh(time.Second))
	if err != nil {
		r.Violate("construct", "%v", err)
		return
	}
	wait := func(want []string, what string) {
		end := time.Now().Add(15 * time.Second)
		for time.Now().Before(end) {
			if slices.Equal(sorted(c.Endpoints()), sorted(want)) {
				r.Case("loop"+what, true)
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		r.Violate("loop-view", "%s: after 15 intervals the view is %v, want %v", what, c.Endpoints(), want)
	}
	wait([]string{f.URL(1), f.URL(2)}, "first refresh")
	phase.Store(1)
	time.Sleep(1200 * time.Millisecond)
	wait([]string{f.URL(1), f.URL(2)}, "failing refresh")
	phase.Store(2)
	time.Sleep(1200 * time.Millisecond)
	phase.Store(3)
	wait([]string{f.URL(3)}, "after failures")
	_ = c.Close()
	n := len(f.Log())
	var last, min time.Duration = 0, time.Hour
	_ = last
	byTick := []time.Time{}
	for _, q := range f.Log() {
		if q.URI == "/cluster/members" {
			byTick = append(byTick, q.At)
		}
	}
	time.Sleep(2300 * time.Millisecond)
	if m := len(f.Log()); m != n {
		r.Violate("refresh-after-close", "%d requests arrived after Close returned", m-n)
	}
	_ = min
	if len(byTick) < 3 {
		r.Violate("no-refresh", "only %d refreshes were observed", len(byTick))
	}
	r.Add("background_refreshes", int64(len(byTick)))

	// disabled refresh never contacts anyone
	f.Script(farm.OK)
	for _, d := range []time.Duration{0, -1, -time.Hour} {
		c, err := client.New([]string{f.URL(0)}, client.WithTopologyRefresh(d))
		if err != nil {
			r.Violate("construct", "WithTopologyRefresh(%v): %v", d, err)
			continue
		}
		defer c.Close()
	}
	time.Sleep(1300 * time.Millisecond)
	if n := len(f.Log()); n != 0 {
		r.Violate("refresh-although-disabled", "%d requests", n)
	}
}

// parallel: commands, refreshes, views and Close at once.
func parallel(r *kit.Run, f *farm.Farm, rng *rand.Rand, i int) {
	var turn atomic.Int64
	universe := []string{}
	for j := 0; j < 6; j++ {
		universe = append(universe, f.URL(j))
	}
	f.Script(func(q farm.Req) farm.Reply {
		if q.URI == "/cluster/members" {
			n := int(turn.Add(1))
			var ms []member
			for j := 0; j < 1+n%5; j++ {
				ms = append(ms, member{ID: fmt.Sprint(j), Address: f.Addr((n + j) % 6), State: []string{"alive", "suspect", "dead"}[(n+j)%3]})
			}
			return membersReply(ms)
		}
		return farm.OK(q)
	})
	c, _ := client.New([]string{f.URL(0), f.URL(1)}, client.WithTopologyRefresh(time.Second))
	var wg sync.WaitGroup
	for w := 0; w < 10; w++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < 12; k++ {
				switch rng.Intn(5) {
				case 0:
					if err := c.RefreshTopology(context.Background()); err != nil {
						r.Violate("refresh-failed", "concurrent refresh: %v", err)
					}
				case 1:
					e := c.Endpoints()
					if len(e) == 0 {
						r.Violate("view-empty", "empty view during concurrent refreshes")
					}
					for _, u := range e {
						if !slices.Contains(universe, u) {
							r.Violate("view-torn", "the view holds %q, which nobody advertised", u)
						}
					}
				case 2:
					if w == 9 && k > 8 {
						_ = c.Close()
					}
				default:
					cmd := farm.Cmds[rng.Intn(len(farm.Cmds))]
					if err := cmd.Run(context.Background(), c); err != nil {
						r.Violate("command-failed", "%s with all endpoints healthy: %v", cmd.Name, err)
					}
				}
			}
		}()
	}
	wg.Wait()
	_ = c.Close()
	r.Add("parallel_calls", 120)
	r.Case(fmt.Sprint("par", i), true)
}

// goroutines: many clients opened, used and closed leave nothing running.
func goroutines(r *kit.Run, f *farm.Farm) {
	f.Script(farm.OK)
	time.Sleep(200 * time.Millisecond)
	before := clientGoroutines()
	for k := 0; k < 30; k++ {
		tr := &http.Transport{}
		c, _ := client.New([]string{f.URL(0)}, client.WithHTTPClient(&http.Client{Transport: tr, Timeout: 5 * time.Second}), client.WithTopologyRefresh(time.Second))
		_, _ = c.Get(context.Background(), "k")
		_ = c.Close()
		tr.CloseIdleConnections()
	}
	if after := clientGoroutines(); after > before {
		r.Violate("goroutine-leak", "%d client goroutines after every client was closed, %d before", after, before)
	}
	r.Case("goroutines", true)
}

func clientGoroutines() int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return strings.Count(string(buf), "pkg/client.(*Client)")
}
