// C13: event subscribers see each event once, in order, and never stall publishers.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
)

func main() {
	kit.Main("C13", "random rounds of concurrent publishers, subscribers (fast, slow, never reading), cancellations and unsubscribes on one bus under the race detector; "+
		"every received event log is checked offline against the published log; non-trivial = at least one event reached a subscriber while two goroutines published, or a step of a sequential model history", run)
}

type payload struct {
	pub, seq int
}

func run(r *kit.Run) {
	base := runtime.NumGoroutine()
	if r.Phase("sequential") {
		for i := 0; i < r.N(400, 6000); i++ {
			sequential(r, r.Rand("seq", i), i)
		}
	}
	if r.Phase("concurrent") {
		deadline := time.Now().Add(time.Duration(r.N(12, 200)) * time.Second)
		for i := 0; i < r.N(1500, 30000) && time.Now().Before(deadline); i++ {
			concurrent(r, r.Rand("conc", i), i)
		}
	}
	if r.Phase("stalled") {
		stalled(r)
	}
	if r.Phase("unsubscribe-race") {
		unsubRace(r)
	}
	if r.Phase("leak") {
		// everything above has been unsubscribed or cancelled
		n := settle(base)
		if n > base {
			buf := make([]byte, 1<<20)
			st := string(buf[:runtime.Stack(buf, true)])
			if strings.Contains(st, "hypercache/internal/eventbus") {
				r.ViolateWith("goroutine-leak", st, "%d goroutines remain after every subscription ended (%d at start)", n, base)
			}
		}
		r.Case("leak", true)
	}
}

func settle(base int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 1000 && n > base; i++ {
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

// sequential compares one goroutine's history with an exact model: per-subscriber FIFO of at most
// the observed buffer capacity.
func sequential(r *kit.Run, rng *rand.Rand, i int) {
	b := eventbus.New()
	type sub struct {
		ch     <-chan eventbus.Event
		unsub  func()
		cancel context.CancelFunc
		want   []uint64
		open   bool
	}
	var subs []*sub
	pub := map[uint64]eventbus.Event{}
	var last, drops uint64
	var log []string
	drain := func(s *sub, n int) {
		for ; n > 0 && len(s.want) > 0; n-- {
			select {
			case e, ok := <-s.ch:
				if !ok || e.Version != s.want[0] || e.Type != pub[e.Version].Type || e.Payload != pub[e.Version].Payload {
					r.ViolateWith("sequential-delivery", log, "received %+v (open %v), expected version %d", e, ok, s.want[0])
					return
				}
				if t := pub[e.Version].Timestamp; !t.IsZero() && !t.Equal(e.Timestamp) {
					r.ViolateWith("timestamp", log, "event timestamp changed from %v to %v", t, e.Timestamp)
				} else if e.Timestamp.IsZero() {
					r.ViolateWith("timestamp", log, "event delivered without a timestamp")
				}
				s.want = s.want[1:]
			default:
				r.ViolateWith("sequential-lost", log, "event version %d was not delivered although the buffer had room", s.want[0])
				return
			}
		}
	}
	n := 10 + rng.Intn(60)
	for st := 0; st < n; st++ {
		switch op := rng.Intn(10); {
		case op < 2 && len(subs) < 5:
			ctx, cancel := context.WithCancel(context.Background())
			ch, un := b.Subscribe(ctx)
			subs = append(subs, &sub{ch: ch, unsub: un, cancel: cancel, open: true})
			log = append(log, "subscribe")
		case op < 7:
			e := eventbus.Event{Type: fmt.Sprintf("t%d", st), Payload: payload{1, st}, Version: uint64(rng.Intn(100))}
			if rng.Intn(2) == 0 {
				e.Timestamp = time.Unix(int64(st+1), 0)
			}
			switch rng.Intn(6) { // equal events are still separate events
			case 0, 1:
				if last > 0 {
					e = pub[last]
				}
			case 2:
				e.Type, e.Payload = []string{"members", "heartbeat"}[rng.Intn(2)], nil
			case 3:
				e.Type, e.Payload = "members", []string{"alive", "suspect"}[rng.Intn(2)]
			case 4:
				e.Timestamp = time.Unix(int64(rng.Intn(3)+1), 0) // the clock may step back
			}
			v := b.Publish(e)
			log = append(log, fmt.Sprintf("publish=%d", v))
			if v <= last {
				r.ViolateWith("version", log, "publish returned version %d after %d", v, last)
				return
			}
			last = v
			pub[v] = e
			for _, s := range subs {
				if !s.open {
					continue
				}
				if len(s.want) < cap(s.ch) {
					s.want = append(s.want, v)
				} else {
					drops++
				}
			}
			if b.Dropped() != drops {
				r.ViolateWith("drop-count", log, "%d drops reported, %d events did not fit", b.Dropped(), drops)
				return
			}
		case op < 9 && len(subs) > 0:
			s := subs[rng.Intn(len(subs))]
			if s.open {
				log = append(log, "read")
				drain(s, 1+rng.Intn(20))
			}
		case len(subs) > 0:
			s := subs[rng.Intn(len(subs))]
			if !s.open {
				s.unsub()
				continue
			}
			log = append(log, "unsubscribe")
			s.unsub()
			s.unsub()
			if rng.Intn(2) == 0 {
				s.cancel()
			}
			s.open = false
			// buffered events remain readable, then the channel is closed
			for e := range s.ch {
				if len(s.want) == 0 || e.Version != s.want[0] {
					r.ViolateWith("after-unsubscribe", log, "received version %d after unsubscribing, still buffered: %v", e.Version, s.want)
					break
				}
				s.want = s.want[1:]
			}
			if len(s.want) > 0 {
				r.ViolateWith("after-unsubscribe", log, "buffered events %v vanished on unsubscribe", s.want)
			}
		}
		open := 0
		for _, s := range subs {
			if s.open {
				open++
			}
		}
		if c := b.SubscriberCount(); c != open {
			r.ViolateWith("subscriber-count", log, "%d subscribers reported, %d open", c, open)
			return
		}
	}
	for _, s := range subs {
		if s.open {
			drain(s, 1000)
		}
		s.cancel()
	}
	for k := 0; k < 2000 && b.SubscriberCount() > 0; k++ {
		time.Sleep(time.Millisecond)
	}
	if c := b.SubscriberCount(); c != 0 {
		r.ViolateWith("cancel-ignored", log, "%d subscribers remain 2 s after their contexts ended", c)
	}
	for _, s := range subs {
		select {
		case _, ok := <-s.ch:
			if ok {
				r.ViolateWith("after-cancel", log, "an event was received after cancellation and drain")
			}
		case <-time.After(5 * time.Second):
			r.ViolateWith("not-closed", log, "the channel was not closed after cancellation")
		}
	}
	r.Case(fmt.Sprint(log), len(pub) > 0)
	r.Add("sequential_events", int64(len(pub)))
	if i == 0 {
		r.Sample("history", log)
	}
}

func concurrent(r *kit.Run, rng *rand.Rand, i int) {
	b := eventbus.New()
	np, ns := 1+rng.Intn(5), 1+rng.Intn(5)
	per := 5 + rng.Intn(60)
	type got struct {
		e eventbus.Event
	}
	logs := make([][]eventbus.Event, ns)
	var wg, sg sync.WaitGroup
	type pubrec struct {
		v uint64
		p payload
	}
	pubs := make([][]pubrec, np)
	var delivered atomic.Int64
	allOpen := true
	modes := make([]int, ns)
	cancels := make([]context.CancelFunc, ns)
	unsubs := make([]func(), ns)
	start := make(chan struct{})
	for s := 0; s < ns; s++ {
		modes[s] = rng.Intn(6)
		quit := 1 + rng.Intn(per*np)
		ctx, cancel := context.WithCancel(context.Background())
		ch, un := b.Subscribe(ctx)
		cancels[s], unsubs[s] = cancel, un
		if modes[s] >= 4 {
			allOpen = false
		}
		sg.Add(1)
		go func() {
			defer sg.Done()
			<-start
			n := 0
			for e := range ch {
				logs[s] = append(logs[s], e)
				n++
				delivered.Add(1)
				switch modes[s] {
				case 1:
					runtime.Gosched()
				case 2:
					if n%7 == 0 {
						time.Sleep(50 * time.Microsecond)
					}
				case 4:
					if n == quit {
						un()
					}
				case 5:
					if n == quit {
						cancel()
					}
				}
			}
		}()
	}
	for p := 0; p < np; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for q := 0; q < per; q++ {
				pl := payload{p, q}
				v := b.Publish(eventbus.Event{Type: "t", Payload: pl})
				pubs[p] = append(pubs[p], pubrec{v, pl})
				if q%5 == p {
					runtime.Gosched()
				}
			}
		}()
	}
	// a subscriber joining mid-way
	lateCtx, lateCancel := context.WithCancel(context.Background())
	var late []eventbus.Event
	sg.Add(1)
	go func() {
		defer sg.Done()
		<-start
		ch, _ := b.Subscribe(lateCtx)
		for e := range ch {
			late = append(late, e)
		}
	}()
	close(start)
	wg.Wait()
	for s := range cancels {
		if rng.Intn(2) == 0 {
			unsubs[s]()
		}
		cancels[s]()
	}
	lateCancel()
	done := make(chan struct{})
	go func() { sg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.Violate("not-closed", "a subscriber channel was not closed within 60 s of cancellation")
		return
	}
	published := map[uint64]payload{}
	for _, l := range pubs {
		var last uint64
		for _, p := range l {
			if p.v <= last {
				r.Violate("version", "one publisher got version %d after %d", p.v, last)
			}
			last = p.v
			if _, dup := published[p.v]; dup {
				r.Violate("version-duplicate", "version %d was issued twice", p.v)
			}
			published[p.v] = p.p
		}
	}
	var received uint64
	for s, l := range append(logs, late) {
		var last uint64
		for _, e := range l {
			if e.Version <= last {
				r.ViolateWith("order", fmt.Sprint(l), "subscriber %d (mode %v) received version %d after %d with %d concurrent publishers", s, modes, e.Version, last, np)
				break
			}
			last = e.Version
			pl, ok := published[e.Version]
			if !ok || e.Payload != any(pl) || e.Type != "t" || e.Timestamp.IsZero() {
				r.Violate("altered", "received %+v, published %+v", e, pl)
				break
			}
		}
		if s < ns {
			received += uint64(len(l))
		}
	}
	if allOpen && len(late) == 0 {
		total := uint64(np * per * ns)
		if received+b.Dropped() < total || b.Dropped() > total {
			r.Violate("loss-uncounted", "%d published x %d subscribers: %d received + %d dropped", np*per, ns, received, b.Dropped())
		}
	}
	if allOpen {
		// exact conservation for the steady subscribers; the late one can add drops only
		total := uint64(np * per * ns)
		if received+b.Dropped() < total {
			r.Violate("loss-uncounted", "%d published x %d subscribers: %d received + %d dropped", np*per, ns, received, b.Dropped())
		}
		lost := total - received
		r.Add("events_lost_to_full_buffers", int64(lost))
	}
	r.Add("events_received", int64(received))
	r.Case(fmt.Sprint(i, np, ns, per, modes), np > 1 && received > 0)
	if i == 0 {
		r.Sample("round", map[string]any{"publishers": np, "subscribers": ns, "events_each": per, "modes": modes, "received": received, "dropped": b.Dropped()})
	}
}

// stalled: nobody reads; publishing must go on and every overflow is counted.
func stalled(r *kit.Run) {
	for i := 0; i < 20; i++ {
		b := eventbus.New()
		ctx, cancel := context.WithCancel(context.Background())
		n := 1 + i%4
		chs := make([]<-chan eventbus.Event, n)
		for k := range chs {
			chs[k], _ = b.Subscribe(ctx)
		}
		const pub = 500
		done := make(chan struct{})
		go func() {
			for k := 0; k < pub; k++ {
				b.Publish(eventbus.Event{Type: "x"})
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			r.Violate("publish-blocked", "publishing to a subscriber that never reads blocked for 30 s")
			cancel()
			return
		}
		var buffered uint64
		for _, c := range chs {
			buffered += uint64(len(c))
			if len(c) != cap(c) {
				r.Violate("buffer-not-filled", "a stalled subscriber's buffer holds %d of %d events although more were published", len(c), cap(c))
			}
		}
		if buffered+b.Dropped() != uint64(pub*n) {
			r.Violate("loss-uncounted", "%d events x %d stalled subscribers: %d buffered + %d dropped", pub, n, buffered, b.Dropped())
		}
		// a reading subscriber next to stalled ones gets everything
		fast, un := b.Subscribe(context.Background())
		for k := 0; k < 100; k++ {
			v := b.Publish(eventbus.Event{Type: "y"})
			select {
			case e := <-fast:
				if e.Version != v {
					r.Violate("starved", "fast subscriber got version %d, expected %d", e.Version, v)
				}
			default:
				r.Violate("starved", "a fast subscriber missed an event because another one is stalled")
			}
		}
		un()
		cancel()
		r.Case(fmt.Sprint("stalled", i), true)
	}
}

// unsubRace: unsubscribe, cancel and publish race; nothing may panic or block.
func unsubRace(r *kit.Run) {
	for i := 0; i < r.N(1500, 20000); i++ {
		b := eventbus.New()
		ctx, cancel := context.WithCancel(context.Background())
		ch, un := b.Subscribe(ctx)
		var wg sync.WaitGroup
		var lateOK atomic.Bool
		start := make(chan struct{})
		for k := 0; k < 2; k++ {
			wg.Add(3)
			go func() { defer wg.Done(); <-start; un() }()
			go func() { defer wg.Done(); <-start; cancel() }()
			go func() { defer wg.Done(); <-start; b.Publish(eventbus.Event{Type: "z"}) }()
		}
		close(start)
		wg.Wait()
		// unsubscribe has returned: nothing published from here on may arrive
		v := b.Publish(eventbus.Event{Type: "late"})
		_ = lateOK
		dl := time.After(20 * time.Second)
	loop:
		for {
			select {
			case e, ok := <-ch:
				if !ok {
					break loop
				}
				if e.Version >= v {
					r.Violate("late-event", "an event published after unsubscribe returned was delivered")
				}
			case <-dl:
				r.Violate("not-closed", "channel not closed after unsubscribe")
				break loop
			}
		}
		r.Case(fmt.Sprint("unsub", i), true)
	}
	// a never-ending context must not keep anything alive after unsubscribe
	base := runtime.NumGoroutine()
	b := eventbus.New()
	for i := 0; i < 300; i++ {
		_, un := b.Subscribe(context.Background())
		un()
	}
	if n := settle(base + 5); n > base+50 {
		r.Violate("goroutine-leak", "300 unsubscribed subscriptions left %d goroutines", n-base)
	}
	if b.SubscriberCount() != 0 {
		r.Violate("subscriber-count", "%d subscribers remain after unsubscribe", b.SubscriberCount())
	}
}
