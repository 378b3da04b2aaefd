// C24: the cache always shuts down, and every queued job runs exactly once.
//
// Oracle: job execution counters, a watchdog on every call that has to return, and the stacks of the goroutines the
// code under test started. Progress of the triggers is observed through the items they make disappear.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

type (
	opt = hypercache.Option[backend.InMemory]
	hcT = hypercache.HyperCache[backend.InMemory]
)

var ctx = context.Background()

const patience = 20 * time.Second

func tryCache(c context.Context, capacity int, opts ...opt) (*hcT, error) {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = opts
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	return hypercache.New(c, hypercache.GetDefaultManager(), cfg)
}

func evictEvery(d time.Duration) opt { return hypercache.WithEvictionInterval[backend.InMemory](d) }
func expireEvery(d time.Duration) opt {
	return hypercache.WithExpirationInterval[backend.InMemory](d)
}

// returns runs f and reports whether it came back in time.
func returns(f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		return false
	}
}

func main() {
	kit.Main("C24", "a distinct schedule of jobs, triggers, resizes and shutdowns", func(r *kit.Run) {
		pool(r)
		resize(r)
		stop(r)
		management(r)
		dist(r)
		triggers(r)
		failed(r)
	})
}

func leaks(r *kit.Run, label string, base int) {
	if gs := kit.Drained(base, 10*time.Second); gs != nil {
		r.ViolateWith("goroutine-left", gs, "%s: %d goroutines are still there 10 s after shutdown (%d before): %s", label, len(gs), base, first(gs[0]))
	}
}

func first(g string) string {
	l := strings.Split(g, "\n")
	if len(l) > 6 {
		l = l[:6]
	}
	return strings.Join(l, " | ")
}

type jobErr struct{ id int }

func (e jobErr) Error() string { return fmt.Sprint("job ", e.id) }

// pool: producers, resizers and shutdowns race; every accepted job runs once and before Shutdown returns.
func pool(r *kit.Run) {
	if !r.Phase("pool") {
		return
	}
	for i := 0; i < r.N(250, 6000); i++ {
		g := r.Rand("pool", i)
		base := len(kit.RepoGoroutines())
		workers := 1 + g.Intn(6)
		p := hypercache.NewWorkerPool(workers)
		producers, per := 1+g.Intn(5), 1+g.Intn(40)
		total := producers * per
		ran := make([]atomic.Int32, total)
		fails := make([]bool, total)
		pause := make([]int, total)
		fmode, smode := g.Intn(3), g.Intn(3)
		for j := range fails {
			fails[j] = fmode == 1 || fmode == 2 && g.Intn(2) == 0
			if smode > 0 && g.Intn(4) == 0 {
				pause[j] = g.Intn(300)
			}
		}
		resizing := g.Intn(2) == 0
		reading := g.Intn(2) == 0
		early := g.Intn(2) == 0 // shut down while producers are at work
		var closing atomic.Bool
		var accepted sync.Map // ids whose Enqueue returned before any Shutdown began
		var over atomic.Bool  // every Shutdown has returned
		var late atomic.Int32
		errs := map[int]int{}
		var readers, wg sync.WaitGroup
		if reading {
			readers.Add(1)
			go func() {
				defer readers.Done()
				for err := range p.Errors() {
					var e jobErr
					if errors.As(err, &e) {
						errs[e.id]++
					} else {
						errs[-1]++
					}
				}
			}()
		}
		for c := 0; c < producers; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < per; n++ {
					id := c*per + n
					p.Enqueue(func() error {
						if over.Load() {
							late.Add(1)
						}
						if pause[id] > 0 {
							time.Sleep(time.Duration(pause[id]) * time.Microsecond)
						}
						if ran[id].Add(1); fails[id] {
							return jobErr{id}
						}
						return nil
					})
					if !closing.Load() {
						accepted.Store(id, true)
					}
				}
			}()
		}
		stopResize := make(chan struct{})
		if resizing {
			h := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 12; n++ {
					select {
					case <-stopResize:
						return
					default:
					}
					p.Resize(h.Intn(9) - 1)
					time.Sleep(time.Duration(h.Intn(200)) * time.Microsecond)
				}
				p.Resize(1 + h.Intn(4))
			}()
		}
		ok := returns(func() {
			if early {
				time.Sleep(time.Duration(g.Intn(1500)) * time.Microsecond)
			} else {
				wg.Wait()
			}
			closing.Store(true)
			var sw sync.WaitGroup
			for n := 0; n < 1+g.Intn(3); n++ {
				sw.Add(1)
				go func() { defer sw.Done(); p.Shutdown() }()
			}
			sw.Wait()
			over.Store(true)
			p.Shutdown()
			wg.Wait()
		})
		label := fmt.Sprintf("pool of %d workers, %d producers of %d jobs, resizing %v, early shutdown %v, failing %d, errors read %v", workers, producers, per, resizing, early, fmode, reading)
		if !ok {
			r.ViolateWith("pool-stuck", kit.RepoGoroutines(), "%s: shutdown or a caller did not return within %v", label, patience)
			return
		}
		close(stopResize)
		if n := late.Load(); n > 0 {
			r.Violate("job-after-shutdown", "%s: %d jobs started after Shutdown had returned", label, n)
		}
		executed := 0
		for id := range ran {
			n := ran[id].Load()
			executed += int(n)
			if n > 1 {
				r.Violate("job-twice", "%s: a job ran %d times", label, n)
			}
			if _, acc := accepted.Load(id); acc && n == 0 {
				r.Violate("job-lost", "%s: a job accepted before shutdown never ran", label)
			}
		}
		p.Enqueue(func() error { late.Add(1); return nil })
		p.Resize(3)
		if reading {
			if !returns(readers.Wait) {
				r.Violate("errors-open", "%s: the error channel is not closed after shutdown", label)
				return
			}
			for id, n := range errs {
				if id < 0 || n > 1 || !fails[id] || ran[id].Load() != 1 {
					r.Violate("errors-wrong", "%s: the error of job %d was reported %d times", label, id, n)
				}
			}
			r.Add("errors-read", int64(len(errs)))
		}
		before := late.Load()
		leaks(r, label, base)
		if late.Load() != before {
			r.Violate("job-after-shutdown", "%s: a job enqueued after Shutdown was run", label)
		}
		r.Add("jobs-run", int64(executed))
		r.Case(fmt.Sprint(label, executed), executed > 0)
	}
}

// resize: once settled, the pool runs exactly as many jobs at a time as it has workers.
func resize(r *kit.Run) {
	if !r.Phase("resize") {
		return
	}
	for i := 0; i < r.N(12, 150); i++ {
		g := r.Rand("resize", i)
		base := len(kit.RepoGoroutines())
		p := hypercache.NewWorkerPool(1 + g.Intn(5))
		var sizes []int
		for n := 0; n < 1+g.Intn(4); n++ {
			sizes = append(sizes, g.Intn(7))
		}
		sizes = append(sizes, 1+g.Intn(6))
		if !returns(func() {
			for _, s := range sizes {
				p.Resize(s)
			}
		}) {
			r.Violate("resize-stuck", "Resize through %v did not return", sizes)
			return
		}
		want := sizes[len(sizes)-1]
		good, last := false, 0
		for attempt := 0; attempt < 4 && !good; attempt++ {
			time.Sleep(time.Duration(20*(attempt+1)) * time.Millisecond) // let the workers to go leave
			var running atomic.Int32
			release := make(chan struct{})
			var all sync.WaitGroup
			for n := 0; n < want+3; n++ {
				all.Add(1)
				go p.Enqueue(func() error { running.Add(1); <-release; all.Done(); return nil })
			}
			end := time.Now().Add(2 * time.Second)
			for int(running.Load()) < want && time.Now().Before(end) {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(10 * time.Millisecond)
			last = int(running.Load())
			good = last == want
			close(release)
			if !returns(all.Wait) {
				r.Violate("job-lost", "after Resize through %v, %d jobs did not all run", sizes, want+3)
				return
			}
		}
		if !good {
			r.Violate("resize-size", "after Resize through %v the pool runs %d jobs at a time", sizes, last)
		}
		if !returns(p.Shutdown) {
			r.Violate("pool-stuck", "Shutdown after Resize through %v did not return", sizes)
			return
		}
		leaks(r, fmt.Sprint("resized ", sizes), base)
		r.Case(fmt.Sprint("resize ", sizes), true)
	}
	// A pool resized to nothing still shuts down and runs what it accepted.
	for i := 0; i < r.N(20, 200); i++ {
		base := len(kit.RepoGoroutines())
		p := hypercache.NewWorkerPool(2 + i%3)
		var n atomic.Int32
		p.Resize(0)
		time.Sleep(time.Duration(i%4) * time.Millisecond)
		p.Enqueue(func() error { n.Add(1); return errors.New("x") })
		p.Enqueue(func() error { n.Add(1); return nil })
		if !returns(p.Shutdown) {
			r.Violate("pool-stuck", "Shutdown of a pool resized to 0 did not return")
			return
		}
		if n.Load() != 2 {
			r.Violate("job-lost", "a pool resized to 0 ran %d of the 2 jobs it accepted", n.Load())
		}
		leaks(r, "resized to 0", base)
		r.Case(fmt.Sprint("resize0 ", i%3, i%4), true)
	}
}

// work keeps a cache busy until told to stop, and reports what did not return.
func work(hc *hcT, g *rand.Rand, clients int, quit <-chan struct{}) *sync.WaitGroup {
	var wg sync.WaitGroup
	for c := 0; c < clients; c++ {
		h := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-quit:
					return
				default:
				}
				k := fmt.Sprintf("k%d", h.Intn(20))
				switch h.Intn(10) {
				case 0, 1, 2:
					_ = hc.Set(ctx, k, "v", time.Duration(h.Intn(3))*time.Millisecond)
				case 3, 4:
					hc.Get(ctx, k)
				case 5:
					hc.TriggerExpiration()
				case 6:
					hc.TriggerEviction(ctx)
				case 7:
					_ = hc.Remove(ctx, k)
				case 8:
					hc.SetCapacity(ctx, 1+h.Intn(10))
				case 9:
					_, _ = hc.GetOrSet(ctx, k, "v", 0)
					_, _ = hc.List(ctx)
				}
			}
		}()
	}
	return &wg
}

// stop: Stop from several goroutines, at any moment of a busy cache's life.
func stop(r *kit.Run) {
	if !r.Phase("stop") {
		return
	}
	for i := 0; i < r.N(90, 1500); i++ {
		g := r.Rand("stop", i)
		base := len(kit.RepoGoroutines())
		parent, cancel := context.WithCancel(ctx)
		capacity := []int{0, 1, 8}[g.Intn(3)]
		ev, ex := time.Duration(g.Intn(3))*time.Millisecond, time.Duration(g.Intn(3))*time.Millisecond
		opts := []opt{evictEvery(ev), expireEvery(ex)}
		if g.Intn(3) == 0 {
			opts = append(opts, hypercache.WithExpirationTriggerDebounce[backend.InMemory](time.Millisecond))
		}
		hc, err := tryCache(parent, capacity, opts...)
		if err != nil {
			r.Violate("new", "New = %v", err)
			cancel()
			return
		}
		quit := make(chan struct{})
		clients := g.Intn(6)
		wg := work(hc, g, clients, quit)
		time.Sleep(time.Duration(g.Intn(2500)) * time.Microsecond)
		abandoned := g.Intn(3) == 0 // the context the cache was built with ends first
		if abandoned {
			cancel()
		}
		stoppers := 1 + g.Intn(4)
		stopCtx, stopCancel := context.WithCancel(ctx)
		if g.Intn(4) == 0 {
			stopCancel()
		}
		label := fmt.Sprintf("cache: capacity %d, eviction every %v, expiration every %v, %d clients, %d stops, context ended first: %v", capacity, ev, ex, clients, stoppers, abandoned)
		ok := returns(func() {
			var sw sync.WaitGroup
			for n := 0; n < stoppers; n++ {
				sw.Add(1)
				go func() {
					defer sw.Done()
					if err := hc.Stop(stopCtx); err != nil {
						r.Violate("stop-error", "%s: Stop = %v", label, err)
					}
				}()
			}
			sw.Wait()
		})
		if !ok {
			r.ViolateWith("stop-stuck", kit.RepoGoroutines(), "%s: Stop did not return within %v", label, patience)
			cancel()
			stopCancel()
			return
		}
		time.Sleep(time.Duration(g.Intn(500)) * time.Microsecond) // users that have not heard yet
		close(quit)
		if !returns(wg.Wait) {
			r.ViolateWith("operation-stuck", kit.RepoGoroutines(), "%s: an operation did not return within %v of the shutdown", label, patience)
			cancel()
			stopCancel()
			return
		}
		if !returns(func() { // a stopped cache still answers, and stops again
			_ = hc.Set(ctx, "k", "v", 0)
			hc.Get(ctx, "k")
			hc.TriggerEviction(ctx)
			hc.TriggerExpiration()
			hc.TriggerEviction(ctx)
			hc.TriggerExpiration()
			if err := hc.Stop(ctx); err != nil {
				r.Violate("stop-error", "%s: a repeated Stop = %v", label, err)
			}
		}) {
			r.ViolateWith("operation-stuck", kit.RepoGoroutines(), "%s: an operation on the stopped cache, or a repeated Stop, did not return", label)
		}
		leaks(r, label, base)
		cancel()
		stopCancel()
		r.Case(fmt.Sprint(label, i), true)
	}
}

// management: stopping a cache ends its HTTP server too, however young it is.
func management(r *kit.Run) {
	if !r.Phase("management") {
		return
	}
	for i := 0; i < r.N(30, 300); i++ {
		g := r.Rand("management", i)
		base := len(kit.RepoGoroutines())
		hc, err := tryCache(ctx, 10, hypercache.WithManagementHTTP[backend.InMemory]("127.0.0.1:0"))
		if err != nil {
			r.Violate("new", "New = %v", err)
			return
		}
		addr := hc.ManagementHTTPAddress()
		if addr == "" {
			r.Violate("mgmt-start", "the management server did not start")
			_ = hc.Stop(ctx)
			continue
		}
		used := i%2 == 0
		if used {
			time.Sleep(time.Duration(g.Intn(3)) * time.Millisecond)
			tr := &http.Transport{DisableKeepAlives: g.Intn(2) == 0}
			resp, err := (&http.Client{Transport: tr, Timeout: patience}).Get("http://" + addr + "/health")
			if err != nil {
				r.Violate("mgmt-serve", "GET /health = %v", err)
			} else {
				_ = resp.Body.Close()
			}
			tr.CloseIdleConnections()
		}
		stoppers := 1 + g.Intn(3)
		label := fmt.Sprintf("cache with a management server (used %v), %d stops", used, stoppers)
		if !returns(func() {
			var sw sync.WaitGroup
			for n := 0; n < stoppers; n++ {
				sw.Add(1)
				go func() {
					defer sw.Done()
					if err := hc.Stop(ctx); err != nil {
						r.Violate("stop-error", "%s: Stop = %v", label, err)
					}
				}()
			}
			sw.Wait()
		}) {
			r.ViolateWith("stop-stuck", kit.RepoGoroutines(), "%s: Stop did not return within %v", label, patience)
			return
		}
		if err := hc.Stop(ctx); err != nil {
			r.Violate("stop-error", "%s: a repeated Stop = %v", label, err)
		}
		leaks(r, label, base)
		if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			_ = c.SetDeadline(time.Now().Add(time.Second))
			_, _ = c.Write([]byte("GET /health HTTP/1.0\r\n\r\n"))
			if n, _ := c.Read(make([]byte, 8)); n > 0 {
				r.Violate("mgmt-serving", "%s: the management server still answers after Stop", label)
			}
			_ = c.Close()
		}
		r.Case(fmt.Sprint("mgmt", used, stoppers, i), true)
	}
}

// dist: a cache over the distributed backend takes the node down with it.
func dist(r *kit.Run) {
	if !r.Phase("dist") {
		return
	}
	for i := 0; i < r.N(12, 120); i++ {
		base := len(kit.RepoGoroutines())
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := ln.Addr().String()
		_ = ln.Close()
		cfg, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
		if err != nil {
			panic(err)
		}
		cfg.DistMemoryOptions = []backend.DistMemoryOption{
			backend.WithDistNode(fmt.Sprintf("n%d", i), addr),
			backend.WithDistReplication(2),
			backend.WithDistHeartbeat(3*time.Millisecond, 50*time.Millisecond, 100*time.Millisecond),
			backend.WithDistMerkleAutoSync(4 * time.Millisecond),
			backend.WithDistRebalanceInterval(5 * time.Millisecond),
			backend.WithDistTombstoneSweep(4 * time.Millisecond),
			backend.WithDistHintReplayInterval(4 * time.Millisecond),
			backend.WithDistGossipInterval(5 * time.Millisecond),
		}
		hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			r.Violate("new", "New over the distributed backend = %v", err)
			return
		}
		_ = hc.Set(ctx, "k", "v", time.Minute)
		_ = hc.Remove(ctx, "k")
		time.Sleep(time.Duration(i%4) * 4 * time.Millisecond)
		stoppers := 1 + i%3
		if !returns(func() {
			var sw sync.WaitGroup
			for n := 0; n < stoppers; n++ {
				sw.Add(1)
				go func() { defer sw.Done(); _ = hc.Stop(ctx) }()
			}
			sw.Wait()
		}) {
			r.ViolateWith("stop-stuck", kit.RepoGoroutines(), "over the distributed backend: Stop did not return within %v", patience)
			return
		}
		leaks(r, "cache over the distributed backend", base)
		r.Case(fmt.Sprint("dist", i), true)
	}
}

// triggers: they work for the cache's whole life, whatever storm came before.
func triggers(r *kit.Run) {
	if !r.Phase("triggers") {
		return
	}
	for i := 0; i < r.N(10, 120); i++ {
		g := r.Rand("triggers", i)
		opts := []opt{expireEvery(time.Hour), evictEvery(time.Hour)}
		if g.Intn(2) == 0 {
			opts = append(opts, hypercache.WithExpirationTriggerBuffer[backend.InMemory](1+g.Intn(3)))
		}
		debounce := time.Duration(0)
		if g.Intn(3) == 0 {
			debounce = time.Millisecond
			opts = append(opts, hypercache.WithExpirationTriggerDebounce[backend.InMemory](debounce))
		}
		hc, err := tryCache(ctx, 5, opts...)
		if err != nil {
			r.Violate("new", "New = %v", err)
			return
		}
		for round := 0; round < 25; round++ {
			var wg sync.WaitGroup
			for c := 0; c < 1+g.Intn(6); c++ {
				h := rand.New(rand.NewSource(g.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < 20; n++ {
						if h.Intn(2) == 0 {
							hc.TriggerExpiration()
						} else {
							hc.TriggerEviction(ctx)
						}
						if h.Intn(4) == 0 {
							time.Sleep(time.Duration(h.Intn(60)) * time.Microsecond)
						}
					}
				}()
			}
			wg.Wait()
			_ = hc.Set(ctx, "short", "v", time.Microsecond)
			time.Sleep(2*time.Millisecond + debounce)
			hc.TriggerExpiration()
			swept := false
			for end := time.Now().Add(patience); time.Now().Before(end) && !swept; time.Sleep(200 * time.Microsecond) {
				items, _ := hc.List(ctx)
				swept = true
				for _, it := range items {
					if it.Key == "short" {
						swept = false
					}
				}
				if !swept && debounce > 0 { // the trigger may have fallen into the debounce window
					hc.TriggerExpiration()
				}
			}
			if !swept {
				r.Violate("expiration-trigger-dead", "round %d: triggering expiration had no effect within %v", round, patience)
				break
			}
			for n := 0; n < 9; n++ {
				_ = hc.Set(ctx, fmt.Sprintf("k%d", n), "v", 0)
			}
			hc.TriggerEviction(ctx)
			done := false
			for end := time.Now().Add(patience); time.Now().Before(end) && !done; time.Sleep(200 * time.Microsecond) {
				done = hc.Count(ctx) <= 5
			}
			if !done {
				r.Violate("eviction-trigger-dead", "round %d: triggering eviction left %d items above the capacity of 5 for %v", round, hc.Count(ctx), patience)
				break
			}
			r.Add("triggers-effective", 2)
		}
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprint("triggers", i), true)
	}
}

// failed: a cache that cannot be built leaves nothing running.
func failed(r *kit.Run) {
	if !r.Phase("failed") {
		return
	}
	base := len(kit.RepoGoroutines())
	for i := 0; i < 5; i++ {
		for label, o := range map[string]opt{
			"unknown algorithm":   hypercache.WithEvictionAlgorithm[backend.InMemory]("none"),
			"unknown collector":   hypercache.WithStatsCollector[backend.InMemory]("none"),
			"invalid shard count": hypercache.WithEvictionShardCount[backend.InMemory](3),
		} {
			if _, err := tryCache(ctx, 10, o); err == nil {
				r.Violate("bad-config", "a cache with %s was built", label)
			}
		}
		if _, err := tryCache(ctx, -4); err == nil {
			r.Violate("bad-config", "a cache with a negative capacity was built")
		}
	}
	leaks(r, "caches that could not be built", base)
	r.Case("failed", true)
}
