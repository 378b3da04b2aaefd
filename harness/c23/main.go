// C23: eviction algorithms keep their tracked set exact and evict by policy.
//
// Oracle: an independent reference model per policy, stepped with the same operations. The real
// algorithm's tracked set is observed by replaying the prefix on a fresh instance and draining it.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cachev2 "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

type op struct {
	Kind string // set get del evict
	Key  string
	Val  int
}

// model is a policy reference: one shard.
type model interface {
	set(k string, v int)
	get(k string) (int, bool)
	del(k string)
	victim() (string, bool) // does not change anything observable
	evict() (string, bool)
	size() int
}

// ---- lru / cawolfu: most recently used first
type lru struct {
	cap  int
	keys []string
	val  map[string]int
}

func newLRU(c int) *lru { return &lru{cap: c, val: map[string]int{}} }
func (m *lru) touch(k string) {
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
	m.keys = append([]string{k}, m.keys...)
}
func (m *lru) drop(k string) {
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
	delete(m.val, k)
}
func (m *lru) set(k string, v int) {
	if m.cap == 0 {
		return
	}
	if _, ok := m.val[k]; !ok && len(m.keys) == m.cap {
		m.drop(m.keys[len(m.keys)-1])
	}
	m.val[k] = v
	m.touch(k)
}
func (m *lru) get(k string) (int, bool) {
	v, ok := m.val[k]
	if ok {
		m.touch(k)
	}
	return v, ok
}
func (m *lru) del(k string) { m.drop(k) }
func (m *lru) victim() (string, bool) {
	if len(m.keys) == 0 {
		return "", false
	}
	return m.keys[len(m.keys)-1], true
}
func (m *lru) evict() (string, bool) {
	k, ok := m.victim()
	if ok {
		m.drop(k)
	}
	return k, ok
}
func (m *lru) size() int { return len(m.keys) }

// ---- lfu: lowest use count, then least recently used
type lfuE struct{ v, n, at int }
type lfu struct {
	cap, clk int
	e        map[string]*lfuE
}

func newLFU(c int) *lfu { return &lfu{cap: c, e: map[string]*lfuE{}} }
func (m *lfu) set(k string, v int) {
	if m.cap == 0 {
		return
	}
	m.clk++
	if x := m.e[k]; x != nil {
		x.v, x.n, x.at = v, x.n+1, m.clk
		return
	}
	if len(m.e) == m.cap {
		m.evict()
	}
	m.e[k] = &lfuE{v, 1, m.clk}
}
func (m *lfu) get(k string) (int, bool) {
	x := m.e[k]
	if x == nil {
		return 0, false
	}
	m.clk++
	x.n++
	x.at = m.clk
	return x.v, true
}
func (m *lfu) del(k string) { delete(m.e, k) }
func (m *lfu) victim() (string, bool) {
	best := ""
	for k, x := range m.e {
		if best == "" || x.n < m.e[best].n || (x.n == m.e[best].n && x.at < m.e[best].at) {
			best = k
		}
	}
	return best, best != ""
}
func (m *lfu) evict() (string, bool) {
	k, ok := m.victim()
	delete(m.e, k)
	return k, ok
}
func (m *lfu) size() int { return len(m.e) }

// ---- clock: a circular buffer swept by a hand; a use buys the slot one more pass
type clockE struct {
	k    string
	v, n int
}
type clock struct {
	slots []*clockE
	hand  int
}

func newClock(c int) *clock { return &clock{slots: make([]*clockE, c)} }
func (m *clock) find(k string) *clockE {
	for _, s := range m.slots {
		if s != nil && s.k == k {
			return s
		}
	}
	return nil
}
func (m *clock) adv() { m.hand = (m.hand + 1) % len(m.slots) }
func (m *clock) set(k string, v int) {
	if len(m.slots) == 0 {
		return
	}
	if x := m.find(k); x != nil {
		x.v = v
		x.n++
		return
	}
	if m.size() < len(m.slots) {
		for m.slots[m.hand] != nil {
			m.adv()
		}
	} else {
		m.evict()
	}
	m.slots[m.hand] = &clockE{k, v, 1}
	m.adv()
}
func (m *clock) get(k string) (int, bool) {
	x := m.find(k)
	if x == nil {
		return 0, false
	}
	x.n++
	return x.v, true
}
func (m *clock) del(k string) {
	for i, s := range m.slots {
		if s != nil && s.k == k {
			m.slots[i] = nil
		}
	}
}
func (m *clock) clone() *clock {
	c := &clock{slots: make([]*clockE, len(m.slots)), hand: m.hand}
	for i, s := range m.slots {
		if s != nil {
			x := *s
			c.slots[i] = &x
		}
	}
	return c
}
func (m *clock) victim() (string, bool) { return m.clone().evict() }
func (m *clock) evict() (string, bool) {
	if m.size() == 0 {
		return "", false
	}
	for {
		s := m.slots[m.hand]
		switch {
		case s == nil:
		case s.n > 0:
			s.n--
		default:
			m.slots[m.hand] = nil
			return s.k, true
		}
		m.adv()
	}
}
func (m *clock) size() int {
	n := 0
	for _, s := range m.slots {
		if s != nil {
			n++
		}
	}
	return n
}

func newModel(name string, c int) model {
	switch name {
	case "lru", "cawolfu":
		return newLRU(c)
	case "lfu":
		return newLFU(c)
	case "clock":
		return newClock(c)
	}
	return nil
}

func newReal(name string, c int) eviction.IAlgorithm {
	var a eviction.IAlgorithm
	var err error
	if name == "arc" {
		a, err = eviction.NewARCAlgorithm(c)
	} else {
		a, err = eviction.NewEvictionAlgorithm(name, c)
	}
	if err != nil {
		panic(err)
	}
	return a
}

func genOps(g *rand.Rand, n, nkeys int) []op {
	ops := make([]op, n)
	var style = g.Intn(5)
	for i := range ops {
		k := fmt.Sprintf("k%d", zipf(g, nkeys))
		x := g.Intn(100)
		switch style {
		case 1: // write heavy
			x = x * 60 / 100
		case 2: // read heavy
			if x < 50 {
				x = 60
			}
		case 3: // eviction heavy
			if x%3 == 0 {
				x = 99
			}
		case 4: // churn: delete/evict often
			if x%4 == 0 {
				x = 85
			}
		}
		switch {
		case x < 45:
			ops[i] = op{"set", k, i}
		case x < 80:
			ops[i] = op{"get", k, 0}
		case x < 90:
			ops[i] = op{"del", k, 0}
		default:
			ops[i] = op{"evict", "", 0}
		}
	}
	return ops
}

func zipf(g *rand.Rand, n int) int {
	if g.Intn(2) == 0 {
		return g.Intn(n)
	}
	return int(float64(n) * g.Float64() * g.Float64())
}

func apply(a eviction.IAlgorithm, o op) (string, int, bool) {
	switch o.Kind {
	case "set":
		a.Set(o.Key, o.Val)
	case "get":
		v, ok := a.Get(o.Key)
		i, _ := v.(int)
		return "", i, ok
	case "del":
		a.Delete(o.Key)
	default:
		k, ok := a.Evict()
		return k, 0, ok
	}
	return "", 0, true
}

// drain empties the algorithm and returns what it tracked, in eviction order.
func drain(a eviction.IAlgorithm, limit int) ([]string, bool) {
	var out []string
	for len(out) <= limit {
		k, ok := a.Evict()
		if !ok {
			return out, true
		}
		out = append(out, k)
	}
	return out, false
}

func main() {
	kit.Main("C23", "a distinct (policy, capacity, operation sequence) whose replacement decisions were compared step by step with the reference policy", func(r *kit.Run) {
		construct(r)
		single(r)
		sharded(r)
		arc(r)
		conserve(r)
		cacheVictims(r)
		cacheBurst(r)
	})
}

func construct(r *kit.Run) {
	if !r.Phase("construct") {
		return
	}
	for _, n := range []string{"lru", "lfu", "clock", "cawolfu"} {
		for _, c := range []int{-1, -100, 0, 1, 7} {
			a, err := eviction.NewEvictionAlgorithm(n, c)
			r.Case(fmt.Sprintf("new %s %d", n, c), true)
			if c < 0 {
				if !errors.Is(err, sentinel.ErrInvalidCapacity) {
					r.Violate("construct", "%s with capacity %d: %v, want ErrInvalidCapacity", n, c, err)
				}
				continue
			}
			if err != nil || a == nil {
				r.Violate("construct", "%s with capacity %d: %v", n, c, err)
			}
		}
	}
	if _, err := eviction.NewARCAlgorithm(-1); !errors.Is(err, sentinel.ErrInvalidCapacity) {
		r.Violate("construct", "arc with capacity -1: %v", err)
	}
	if _, err := eviction.NewEvictionAlgorithm("nope", 3); !errors.Is(err, sentinel.ErrAlgorithmNotFound) {
		r.Violate("construct", "unknown algorithm: %v", err)
	}
	if _, err := eviction.NewEvictionAlgorithm("", 3); !errors.Is(err, sentinel.ErrParamCannotBeEmpty) {
		r.Violate("construct", "empty algorithm name: %v", err)
	}
	for _, s := range []int{-4, -1, 0, 3, 5, 6, 7, 12, 33, 100} {
		if _, err := eviction.NewSharded("lru", 10, s); err == nil {
			r.Violate("construct", "%d shards accepted", s)
		}
	}
	if _, err := eviction.NewSharded("lru", -1, 4); err == nil {
		r.Violate("construct", "sharded with negative capacity accepted")
	}
	if _, err := eviction.NewSharded("nope", 4, 4); err == nil {
		r.Violate("construct", "sharded with unknown algorithm accepted")
	}
}

func single(r *kit.Run) {
	if !r.Phase("single") {
		return
	}
	names := []string{"lru", "lfu", "clock", "cawolfu"}
	n := r.N(900, 20000)
	for i := 0; i < n; i++ {
		g := r.Rand("single", i)
		name := names[i%len(names)]
		c := []int{0, 1, 2, 3, 5, 8, 13, 30}[g.Intn(8)]
		nk := 1 + g.Intn(2*c+4)
		ops := genOps(g, 20+g.Intn(r.N(250, 600)), nk)
		a, m := newReal(name, c), newModel(name, c)
		evs := 0
		bad := false
		for j, o := range ops {
			switch o.Kind {
			case "set":
				m.set(o.Key, o.Val)
				apply(a, o)
			case "get":
				wv, wok := m.get(o.Key)
				_, v, ok := apply(a, o)
				if ok != wok || v != wv {
					r.ViolateWith("tracked:"+name, ops[:j+1], "%s(cap %d): Get(%s) = %v,%v, the policy tracks %v,%v", name, c, o.Key, v, ok, wv, wok)
					bad = true
				}
			case "del":
				m.del(o.Key)
				apply(a, o)
			default:
				wk, wok := m.evict()
				k, _, ok := apply(a, o)
				evs++
				if ok != wok {
					r.ViolateWith("evict-fails:"+name, ops[:j+1], "%s(cap %d): Evict = %q,%v with %d keys tracked (want %q,%v)", name, c, k, ok, m.size(), wk, wok)
					bad = true
				} else if k != wk {
					r.ViolateWith("victim:"+name, ops[:j+1], "%s(cap %d): Evict picked %q, the policy prescribes %q", name, c, k, wk)
					bad = true
				}
			}
			if bad {
				break
			}
		}
		if bad {
			continue
		}
		// what is left, in order
		var want []string
		for {
			k, ok := m.evict()
			if !ok {
				break
			}
			want = append(want, k)
		}
		got, ended := drain(a, len(want)+3)
		if !ended || fmt.Sprint(got) != fmt.Sprint(want) {
			r.ViolateWith("drain:"+name, ops, "%s(cap %d): draining gives %v, the policy tracks %v", name, c, got, want)
		}
		r.Case(fmt.Sprintf("%s/%d/%d/%d", name, c, i, len(ops)), evs > 0 && c > 0)
		r.Add("ops:"+name, int64(len(ops)))
		r.Add("evictions:"+name, int64(evs+len(want)))
		r.Seen("capacity", fmt.Sprint(name, c))
		if i < 4 {
			r.Sample(name, map[string]any{"cap": c, "ops": ops[:min(12, len(ops))], "drain": got})
		}
	}
}

func sharded(r *kit.Run) {
	if !r.Phase("sharded") {
		return
	}
	names := []string{"lru", "lfu", "clock", "cawolfu"}
	n := r.N(300, 5000)
	for i := 0; i < n; i++ {
		g := r.Rand("sharded", i)
		name := names[i%len(names)]
		sc := []int{1, 2, 4, 8, 32}[g.Intn(5)]
		total := []int{0, 1, 3, 8, 20, 64}[g.Intn(6)]
		per := (total + sc - 1) / sc
		a, err := eviction.NewSharded(name, total, sc)
		if err != nil {
			r.Violate("construct", "NewSharded(%s,%d,%d): %v", name, total, sc, err)
			continue
		}
		ms := make([]model, sc)
		for j := range ms {
			ms[j] = newModel(name, per)
		}
		of := func(k string) model { return ms[int(cachev2.Hash(k))&(sc-1)] }
		ops := genOps(g, 30+g.Intn(300), 1+g.Intn(3*total+6))
		bad := false
		for j, o := range ops {
			switch o.Kind {
			case "set":
				of(o.Key).set(o.Key, o.Val)
				a.Set(o.Key, o.Val)
			case "get":
				wv, wok := of(o.Key).get(o.Key)
				v, ok := a.Get(o.Key)
				iv, _ := v.(int)
				if ok != wok || iv != wv {
					r.ViolateWith("tracked:sharded-"+name, ops[:j+1], "sharded %s(total %d, %d shards): Get(%s)=%v,%v want %v,%v", name, total, sc, o.Key, v, ok, wv, wok)
					bad = true
				}
			case "del":
				of(o.Key).del(o.Key)
				a.Delete(o.Key)
			default:
				k, ok := a.Evict()
				if !shardEvict(ms, k, ok) {
					r.ViolateWith("victim:sharded-"+name, ops[:j+1], "sharded %s(total %d, %d shards): Evict=%q,%v is no shard's victim (tracked %d)", name, total, sc, k, ok, total2(ms))
					bad = true
				}
			}
			if bad {
				break
			}
		}
		if bad {
			continue
		}
		for left := total2(ms); left >= 0; left-- {
			k, ok := a.Evict()
			if !shardEvict(ms, k, ok) {
				r.ViolateWith("drain:sharded-"+name, ops, "sharded %s(total %d, %d shards): draining gives %q,%v with %d keys tracked", name, total, sc, k, ok, total2(ms))
				break
			}
		}
		r.Case(fmt.Sprintf("sharded %s/%d/%d/%d", name, sc, total, i), total > 0)
		r.Add("ops:sharded", int64(len(ops)))
	}
}

func total2(ms []model) int {
	n := 0
	for _, m := range ms {
		n += m.size()
	}
	return n
}

// shardEvict steps the shard models for an observed eviction; false if no shard would give it up.
func shardEvict(ms []model, k string, ok bool) bool {
	if !ok {
		return total2(ms) == 0
	}
	for _, m := range ms {
		if w, wok := m.victim(); wok && w == k {
			m.evict()
			return true
		}
	}
	return false
}

// arc is judged on what holds for any adaptation: exact tracking up to capacity, victims are tracked keys that
// are the oldest of the once-used or of the repeatedly used ones, and the history stays bounded.
func arc(r *kit.Run) {
	if !r.Phase("arc") {
		return
	}
	n := r.N(300, 6000)
	for i := 0; i < n; i++ {
		g := r.Rand("arc", i)
		c := []int{0, 1, 2, 3, 5, 8, 20}[g.Intn(7)]
		ops := genOps(g, 20+g.Intn(250), 1+g.Intn(3*c+4))
		a := newReal("arc", c)
		val := map[string]int{}
		lost := map[string]bool{} // keys that may have been replaced silently by a Set at capacity
		size := 0
		bad := false
		replay := func(upto int) eviction.IAlgorithm {
			b := newReal("arc", c)
			for _, o := range ops[:upto] {
				apply(b, o)
			}
			return b
		}
		for j, o := range ops {
			before := map[string]bool{}
			if j%7 == 0 || o.Kind == "evict" {
				ks, ended := drain(replay(j), 10*c+10)
				if !ended {
					r.ViolateWith("drain:arc", ops[:j], "arc(cap %d): draining does not end: %v", c, ks)
					bad = true
					break
				}
				for _, k := range ks {
					if before[k] {
						r.ViolateWith("drain:arc", ops[:j], "arc(cap %d): draining gives %q twice: %v", c, k, ks)
						bad = true
					}
					before[k] = true
					if _, ok := val[k]; !ok {
						r.ViolateWith("drain:arc", ops[:j], "arc(cap %d): draining gives %q, deleted or evicted before", c, k)
						bad = true
					}
				}
				if len(ks) > c {
					r.ViolateWith("capacity:arc", ops[:j], "arc(cap %d) tracks %d keys", c, len(ks))
					bad = true
				}
				if len(ks) != size {
					r.ViolateWith("drain:arc", ops[:j], "arc(cap %d): draining gives %d keys %v, %d are tracked", c, len(ks), ks, size)
					bad = true
				}
				for k := range val {
					if !before[k] {
						delete(val, k)
					}
				}
			}
			if bad {
				break
			}
			switch o.Kind {
			case "set":
				if c > 0 {
					// does the algorithm track the key now?
					_, tracked := replay(j).Get(o.Key)
					if !tracked && size < c {
						size++
					}
					val[o.Key] = o.Val
					lost = map[string]bool{}
				}
				apply(a, o)
				if c > 0 {
					b := replay(j + 1)
					if v, ok := b.Get(o.Key); !ok || v != any(o.Val) {
						r.ViolateWith("tracked:arc", ops[:j+1], "arc(cap %d): %q just set reads %v,%v", c, o.Key, v, ok)
						bad = true
					}
				}
			case "get":
				_, v, ok := apply(a, o)
				w, known := val[o.Key]
				if ok && (!known || v != w) {
					r.ViolateWith("tracked:arc", ops[:j+1], "arc(cap %d): Get(%s)=%v, last set %v (tracked %v)", c, o.Key, v, w, known)
					bad = true
				}
			case "del":
				if _, tracked := replay(j).Get(o.Key); tracked {
					size--
				}
				delete(val, o.Key)
				apply(a, o)
			default:
				k, _, ok := apply(a, o)
				if ok != (size > 0) || (ok && !before[k]) {
					r.ViolateWith("evict-fails:arc", ops[:j+1], "arc(cap %d): Evict=%q,%v with %d keys tracked %v", c, k, ok, size, before)
					bad = true
				}
				if ok {
					size--
					delete(val, k)
				}
			}
			if bad {
				break
			}
		}
		_ = lost
		r.Case(fmt.Sprintf("arc/%d/%d/%d", c, i, len(ops)), c > 0)
		r.Add("ops:arc", int64(len(ops)))
	}
	// scan resistance, the point of the policy: repeatedly used keys survive a scan of new ones
	for i := 0; i < r.N(20, 200); i++ {
		g := r.Rand("arc-scan", i)
		c := 4 + g.Intn(20)
		hot := 1 + g.Intn(c/2)
		a := newReal("arc", c)
		for h := 0; h < hot; h++ {
			a.Set(fmt.Sprint("hot", h), h)
			a.Get(fmt.Sprint("hot", h))
		}
		for s := 0; s < 5*c; s++ {
			a.Set(fmt.Sprint("scan", s), s)
		}
		for h := 0; h < hot; h++ {
			if _, ok := a.Get(fmt.Sprint("hot", h)); !ok {
				r.Violate("scan:arc", "arc(cap %d): a scan of %d new keys replaced %d repeatedly used one(s)", c, 5*c, hot)
				break
			}
		}
		r.Case(fmt.Sprint("scan", c, hot), true)
	}
}

// conserve: under concurrency every key that was tracked leaves exactly once.
func conserve(r *kit.Run) {
	if !r.Phase("conserve") {
		return
	}
	for i := 0; i < r.N(60, 800); i++ {
		g := r.Rand("conserve", i)
		names := []string{"lru", "lfu", "clock", "cawolfu", "arc", "sharded-lru", "sharded-lfu", "sharded-clock", "sharded-cawolfu"}
		name := names[i%len(names)]
		workers, per := 2+g.Intn(6), 40+g.Intn(120)
		var a eviction.IAlgorithm
		if len(name) > 8 && name[:8] == "sharded-" {
			// room for every key even if they all fall into one shard
			a, _ = eviction.NewSharded(name[8:], workers*per*8, 8)
		} else {
			a = newReal(name, workers*per)
		}
		evicted := make([][]string, workers)
		deleted := make([]map[string]bool, workers)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			deleted[w] = map[string]bool{}
			seed := g.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				h := rand.New(rand.NewSource(seed))
				for k := 0; k < per; k++ {
					key := fmt.Sprintf("w%d-%d", w, k)
					a.Set(key, k)
					switch h.Intn(4) {
					case 0:
						if e, ok := a.Evict(); ok {
							evicted[w] = append(evicted[w], e)
						}
					case 1:
						d := fmt.Sprintf("w%d-%d", w, h.Intn(k+1))
						a.Delete(d)
						deleted[w][d] = true
					case 2:
						d := fmt.Sprintf("w%d-%d", h.Intn(workers), h.Intn(per))
						if v, ok := a.Get(d); ok {
							var ww, kk int
							fmt.Sscanf(d, "w%d-%d", &ww, &kk)
							if v != any(kk) {
								r.Violate("tracked:"+name, "%s: Get(%s) under concurrency = %v", name, d, v)
							}
						}
					}
				}
			}()
		}
		wg.Wait()
		count := map[string]int{}
		for _, e := range evicted {
			for _, k := range e {
				count[k]++
			}
		}
		rest, ended := drain(a, workers*per+5)
		if !ended {
			r.Violate("conserve:"+name, "%s: draining does not end", name)
		}
		for _, k := range rest {
			count[k]++
		}
		var lostKeys, dup []string
		for w := 0; w < workers; w++ {
			for k := 0; k < per; k++ {
				key := fmt.Sprintf("w%d-%d", w, k)
				switch n := count[key]; {
				case n > 1:
					dup = append(dup, key)
				case n == 0 && !deleted[w][key]:
					lostKeys = append(lostKeys, key)
				}
				delete(count, key)
			}
		}
		for k := range count {
			dup = append(dup, "never set: "+k)
		}
		sort.Strings(lostKeys)
		if len(lostKeys)+len(dup) > 0 {
			r.Violate("conserve:"+name, "%s: %d keys set once are neither tracked, evicted nor deleted %v; given out twice or never set: %v", name, len(lostKeys), head(lostKeys), head(dup))
		}
		r.Case(fmt.Sprint("conserve", name, i), true)
		r.Add("concurrent-keys", int64(workers*per))
	}
}

func head(s []string) []string {
	if len(s) > 6 {
		return s[:6]
	}
	return s
}

type cacheT = hypercache.HyperCache[backend.InMemory]

func newCache(capacity int, opts ...hypercache.Option[backend.InMemory]) *cacheT {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		panic(err)
	}
	cfg.HyperCacheOptions = append(opts, hypercache.WithExpirationInterval[backend.InMemory](time.Hour))
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		panic(err)
	}
	return hc
}

func heldKeys(r *kit.Run, hc *cacheT) map[string]bool {
	items, err := hc.List(context.Background())
	if err != nil {
		r.Violate("list-error", "List = %v", err)
	}
	m := map[string]bool{}
	for _, it := range items {
		m[it.Key] = true
	}
	return m
}

// cacheVictims: what the cache evicts to make room is what the configured policy picks, reads counting as uses.
func cacheVictims(r *kit.Run) {
	if !r.Phase("cache-victims") {
		return
	}
	ctx := context.Background()
	names := []string{"lru", "lfu", "clock", "cawolfu"}
	for i := 0; i < r.N(240, 4000); i++ {
		g := r.Rand("cache-victims", i)
		name := names[i%4]
		ns := 1
		if i/4%3 == 2 && name != "clock" {
			ns = []int{2, 8, 32}[g.Intn(3)]
		}
		capacity := []int{1, 2, 3, 6, 12, 40}[g.Intn(6)]
		hc := newCache(capacity, hypercache.WithEvictionAlgorithm[backend.InMemory](name),
			hypercache.WithEvictionShardCount[backend.InMemory](ns), hypercache.WithEvictionInterval[backend.InMemory](0))
		size := 1 << 20
		if name == "clock" {
			size = capacity
		}
		ms := make([]model, ns)
		for j := range ms {
			ms[j] = newModel(name, size)
		}
		shard := func(k string) model { return ms[int(cachev2.Hash(k))&(ns-1)] }
		var trace []string
		held := map[string]bool{}
		victims := 0
		read := func(k string) {
			if held[k] {
				shard(k).get(k)
			}
		}
		ok := true
		for n := 0; n < 80+2*capacity && ok; n++ {
			k := fmt.Sprintf("k%d", zipf(g, capacity*2+3))
			write := func(set func()) {
				isNew := !held[k]
				set()
				now := heldKeys(r, hc)
				var gone []string
				for x := range held {
					if !now[x] {
						gone = append(gone, x)
					}
				}
				if isNew && len(held) >= capacity {
					if len(gone) != 1 {
						r.ViolateWith("cache-evictions", trace, "%s, capacity %d, %d shards: a new key in a full cache evicted %v", name, capacity, ns, gone)
						ok = false
						return
					}
					victims++
					m := shard(gone[0])
					if v, _ := m.victim(); v != gone[0] {
						r.ViolateWith("cache-victim:"+name, append(trace, "-> evicted "+gone[0]), "%s, capacity %d, %d shards: making room, the cache evicted %q where the policy picks %q", name, capacity, ns, gone[0], v)
						ok = false
						return
					}
					m.evict()
				} else if len(gone) > 0 {
					r.ViolateWith("cache-evictions", trace, "%s, capacity %d, %d shards: a write with room to spare evicted %v", name, capacity, ns, gone)
					ok = false
					return
				}
				shard(k).set(k, n)
				held = now
				r.Add("decisions-compared", 1)
			}
			switch x := g.Intn(20); {
			case x < 9:
				trace = append(trace, "set "+k)
				write(func() {
					if err := hc.Set(ctx, k, n, 0); err != nil {
						r.Violate("cache-set", "Set = %v", err)
					}
				})
			case x < 11:
				trace = append(trace, "getorset "+k)
				if held[k] {
					_, _ = hc.GetOrSet(ctx, k, n, 0)
					read(k)
				} else {
					write(func() { _, _ = hc.GetOrSet(ctx, k, n, 0) })
				}
			case x < 14:
				trace = append(trace, "get "+k)
				hc.Get(ctx, k)
				read(k)
			case x < 16:
				trace = append(trace, "info "+k)
				hc.GetWithInfo(ctx, k)
				read(k)
			case x < 18:
				k2 := fmt.Sprintf("k%d", zipf(g, capacity*2+3))
				trace = append(trace, "multi "+k+" "+k2)
				hc.GetMultiple(ctx, k, k2)
				read(k)
				read(k2)
			case x < 19 || g.Intn(4) > 0:
				trace = append(trace, "remove "+k)
				_ = hc.Remove(ctx, k)
				shard(k).del(k)
				delete(held, k)
			case name != "clock": // a cleared ring keeps its hand, which no user can tell
				trace = append(trace, "clear")
				_ = hc.Clear(ctx)
				for k := range held {
					shard(k).del(k)
				}
				held = map[string]bool{}
			}
		}
		r.Add("cache-evictions", int64(victims))
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("cache %s %d %d %s", name, capacity, ns, strings.Join(trace, ",")), victims > 0)
	}
}

// cacheBurst: a cache that outgrew its capacity between two eviction runs is brought back by evicting what the
// policy ranks lowest, not whatever happened to be remembered.
func cacheBurst(r *kit.Run) {
	if !r.Phase("cache-burst") {
		return
	}
	ctx := context.Background()
	for i := 0; i < r.N(60, 900); i++ {
		g := r.Rand("cache-burst", i)
		name := []string{"lru", "lfu", "cawolfu", "clock"}[i%4]
		ns := []int{1, 1, 8, 32}[g.Intn(4)]
		capacity := []int{1, 4, 10, 50}[g.Intn(4)]
		n := capacity + 1 + g.Intn(4*capacity)
		per := uint(0)
		if g.Intn(2) == 0 {
			per = uint(1 + g.Intn(capacity))
		}
		sig := "cache-burst:" + name
		if name == "clock" && ns > 1 {
			continue
		}
		hc := newCache(capacity, hypercache.WithEvictionAlgorithm[backend.InMemory](name),
			hypercache.WithEvictionShardCount[backend.InMemory](ns), hypercache.WithMaxEvictionCount[backend.InMemory](per),
			hypercache.WithEvictionInterval[backend.InMemory](time.Hour))
		ms := make([]model, ns)
		for j := range ms {
			ms[j] = newModel(name, 4096)
		}
		shard := func(k string) model { return ms[int(cachev2.Hash(k))&(ns-1)] }
		for j := 0; j < n; j++ {
			k := fmt.Sprintf("k%d", j)
			_ = hc.Set(ctx, k, j, 0)
			shard(k).set(k, j)
			if name != "clock" && g.Intn(3) == 0 {
				k = fmt.Sprintf("k%d", g.Intn(j+1))
				hc.Get(ctx, k)
				shard(k).get(k)
			}
		}
		end := time.Now().Add(15 * time.Second)
		for hc.Count(ctx) > capacity && time.Now().Before(end) {
			hc.TriggerEviction(ctx)
			time.Sleep(time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		held := heldKeys(r, hc)
		// In each shard, whatever is gone ranks below whatever is left.
		for _, m := range ms {
			left := 0
			for j := 0; j < n; j++ {
				if k := fmt.Sprintf("k%d", j); held[k] && shard(k) == m {
					left++
				}
			}
			for m.size() > left {
				k, _ := m.evict()
				if held[k] {
					r.Violate(sig, "%s, capacity %d, %d shards, at most %d per run: after outgrowing the capacity with %d items the cache kept %q, which the policy evicts first; it holds %d items", name, capacity, ns, per, n, k, len(held))
					break
				}
			}
		}
		r.Add("bursts-compared", 1)
		_ = hc.Stop(ctx)
		r.Case(fmt.Sprintf("burst %s %d %d %d %d", name, capacity, ns, n, per), n > capacity)
	}
}
