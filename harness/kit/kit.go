// Package kit is the shared runtime of every monitor: seeded randomness, budget,
// case accounting, evidence, violations, known findings and the hang watchdog.
package kit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Known is one entry of /verif/known-findings.json.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

// Run is the state of one check execution.
type Run struct {
	Prop  string
	Tier  string
	Seed  int64
	Level string
	Rule  string
	root  string
	start time.Time

	mu           sync.Mutex
	evals        int64
	distinct     map[uint64]struct{}
	nontrivial   int64
	stats        map[string]int64
	sets         map[string]map[string]int64
	samples      []any
	sampleKinds  map[string]int
	violations   int
	violSigs     map[string]int
	knownHit     map[string]int
	known        map[string]Known
	inconclusive map[string]int64
	assumptions  []string
	only         string
	closed       bool
	phase        string
	moved        time.Time // when a case was last decided, or a phase begun
	quiet        time.Duration
	firstBad     time.Time
	scale        float64
}

// Main runs fn as the check of one property and exits with the verdict.
func Main(prop, rule string, fn func(r *Run)) {
	r := &Run{
		Prop: prop, Level: "exploration", Rule: rule,
		Tier: env("VERIF_TIER", "quick"), root: env("VERIF_ROOT", "/verif"),
		start: time.Now(), distinct: map[uint64]struct{}{}, stats: map[string]int64{},
		sets: map[string]map[string]int64{}, sampleKinds: map[string]int{}, violSigs: map[string]int{},
		knownHit: map[string]int{}, known: map[string]Known{}, inconclusive: map[string]int64{},
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	r.only = os.Getenv("VERIF_ONLY")
	r.loadKnown()
	r.moved = r.start
	if r.scale, _ = strconv.ParseFloat(env("VERIF_SCALE", "1"), 64); r.scale <= 0 {
		r.scale = 1
	}
	// stuck: no case decided for that long. enough: what was seen until then is the run. settled: a run that has
	// found a violation does not go on for long.
	stuck, enough, settled := 240*time.Second, 690*time.Second, 150*time.Second
	if r.Tier == "thorough" {
		stuck, enough, settled = 20*time.Minute, 150*time.Minute, 30*time.Minute
	}
	go r.watchdog(stuck, enough, settled)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.panicked(p, debug.Stack())
			}
		}()
		fn(r)
	}()
	r.finish()
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.root, "known-findings.json"))
	if err != nil {
		return
	}
	var ks struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(3)
	}
	for _, k := range ks.Findings {
		if k.Property == r.Prop && k.Status == "open" {
			r.known[k.Sig] = k
		}
	}
}

// Quick reports whether this is the quick tier.
func (r *Run) Quick() bool { return r.Tier == "quick" }

// N picks a size by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Quick() {
		if quick >= 20 && thorough > quick { // a number of rounds: checks.json may ask for more of them
			return min(int(float64(quick)*r.scale), thorough)
		}
		return quick
	}
	return thorough
}

// Rand returns a generator derived from the run's seed and a label, so adding
// one workload never changes the cases of another.
func (r *Run) Rand(label string, idx ...int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%v", r.Seed, r.Prop, label, idx)
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

// Phase names the workload under way (for hang and panic reports) and reports whether
// it is selected (VERIF_ONLY narrows a run to one phase while debugging).
func (r *Run) Phase(name string) bool {
	if r.only != "" && !strings.Contains(name, r.only) {
		return false
	}
	r.mu.Lock()
	r.phase = name
	r.progress()
	r.mu.Unlock()
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "[%6.1fs] phase %s\n", time.Since(r.start).Seconds(), name)
	}
	return true
}

// Case counts one evaluation. key identifies the case; nontrivial says whether it
// exercised what the property talks about.
func (r *Run) Case(key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(key))
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.progress()
	if !nontrivial {
		return
	}
	if _, ok := r.distinct[h.Sum64()]; !ok {
		r.distinct[h.Sum64()] = struct{}{}
		r.nontrivial++
	}
}

// Add accumulates a named observation counter.
func (r *Run) Add(name string, n int64) {
	r.mu.Lock()
	r.stats[name] += n
	r.mu.Unlock()
}

// Max keeps the maximum of a named observation.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.stats[name] {
		r.stats[name] = n
	}
	r.mu.Unlock()
}

// Seen records that a named class of observation occurred (counted per class).
func (r *Run) Seen(set, class string) {
	r.mu.Lock()
	r.progress()
	m := r.sets[set]
	if m == nil {
		m = map[string]int64{}
		r.sets[set] = m
	}
	if len(m) < 400 || m[class] > 0 {
		m[class]++
	}
	r.mu.Unlock()
}

// Sample keeps up to two actual cases per kind for the evidence file.
func (r *Run) Sample(kind string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleKinds[kind] >= 2 || len(r.samples) >= 40 {
		return
	}
	r.sampleKinds[kind]++
	r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
}

// Assume records an assumption in the evidence.
func (r *Run) Assume(s string) { r.mu.Lock(); r.assumptions = append(r.assumptions, s); r.mu.Unlock() }

// Inconclusive counts an execution the oracle could not decide.
func (r *Run) Inconclusive(reason string) {
	r.mu.Lock()
	r.inconclusive[reason]++
	r.mu.Unlock()
}

// Violations is the number of (unlisted) violations so far.
func (r *Run) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return r.violations }

// Violate reports a violation. sig identifies the specific input, call site or history
// class that fails; it is what the known-findings file is keyed by.
func (r *Run) Violate(sig string, format string, args ...any) {
	r.ViolateWith(sig, nil, format, args...)
}

// ViolateWith is Violate with a witness that goes into the replay file.
func (r *Run) ViolateWith(sig string, witness any, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	r.mu.Lock()
	if k, ok := r.known[sig]; ok {
		if r.knownHit[sig] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, k.What, sig)
		}
		r.knownHit[sig]++
		r.mu.Unlock()
		return
	}
	r.violations++
	if r.firstBad.IsZero() {
		r.firstBad = time.Now()
	}
	r.violSigs[sig]++
	n := r.violSigs[sig]
	sigs := len(r.violSigs)
	phase := r.phase
	r.mu.Unlock()
	if n > 1 || sigs > 40 {
		return
	}
	path := r.replayPath(sig)
	b, _ := json.MarshalIndent(map[string]any{
		"property": r.Prop, "sig": sig, "seed": r.Seed, "tier": r.Tier, "phase": phase,
		"message": msg, "witness": witness,
		"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY=%q ./check %s", r.Seed, r.Tier, phase, r.Prop),
	}, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	fmt.Printf("  sig=%s phase=%s: %s\n", sig, phase, clip(msg, 1500))
}

func (r *Run) replayPath(sig string) string {
	s := sha256.Sum256([]byte(sig))
	return filepath.Join(r.root, "replays", r.Prop+"-"+hex.EncodeToString(s[:5])+".json")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *Run) panicked(p any, stack []byte) {
	st := string(stack)
	if InRepo(st) {
		r.ViolateWith("panic:"+topRepoFrame(st), st, "panic in the code under test: %v\n%s", p, clip(st, 3000))
		return
	}
	if _, ok := p.(runtime.Error); ok {
		// The monitor indexes, converts or follows only what a correct answer always has.
		r.ViolateWith("impossible:"+r.phase, st, "an answer without what every correct answer has: %v\n%s", p, clip(st, 3000))
		r.finish()
	}
	fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", p, st)
	if r.Violations() > 0 { // what was found stands
		r.finish()
	}
	os.Exit(3)
}

// Guard runs fn and turns a panic of the code under test into a violation.
func (r *Run) Guard(fn func()) {
	defer func() {
		if p := recover(); p != nil {
			r.panicked(p, debug.Stack())
		}
	}()
	fn()
}

// InRepo reports whether a stack dump passes through the code under test
// (hypercache frames that are not the monitors').
func InRepo(stack string) bool { return topRepoFrame(stack) != "" }

func topRepoFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/hyp3rd/hypercache") && !strings.HasPrefix(l, "github.com/hyp3rd/hypercache/internal/vh/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/hyp3rd/hypercache")
		}
	}
	return ""
}

// progress notes that the run is alive; the lock is held.
func (r *Run) progress() {
	now := time.Now()
	if d := now.Sub(r.moved); d > r.quiet {
		r.quiet = d
	}
	r.moved = now
}

func (r *Run) watchdog(stuck, enough, settled time.Duration) {
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		phase, moved, bad := r.phase, r.moved, r.firstBad
		r.mu.Unlock()
		switch {
		case !bad.IsZero() && time.Since(bad) > settled:
			r.finish()
		case time.Since(moved) > stuck:
			buf := make([]byte, 8<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if InRepo(string(buf)) {
				r.ViolateWith("hang:"+phase, string(buf[:min(len(buf), 200000)]), "nothing was decided for %v in phase %s: an operation of the code under test is stuck", stuck, phase)
				r.finish()
			}
			fmt.Fprintf(os.Stderr, "watchdog: harness stuck for %v in phase %s\n%s\n", stuck, phase, buf)
			os.Exit(3)
		case time.Since(r.start) > enough:
			r.Inconclusive("stopped by the time limit in phase " + phase)
			r.finish()
		}
	}
}

// Elapsed is the wall time used so far.
func (r *Run) Elapsed() time.Duration { return time.Since(r.start) }

func (r *Run) finish() {
	r.mu.Lock()
	if r.closed {
		r.mu.Unlock()
		select {}
	}
	r.closed = true
	cov := map[string]any{
		"evaluations": r.evals, "distinct_nontrivial": r.nontrivial, "rule": r.Rule,
		"samples": r.samples, "observed": r.stats,
	}
	sets := map[string]any{}
	for k, m := range r.sets {
		names := make([]string, 0, len(m))
		for c := range m {
			names = append(names, c)
		}
		sort.Strings(names)
		out := map[string]int64{}
		for i, c := range names {
			if i < 80 {
				out[c] = m[c]
			}
		}
		sets[k] = map[string]any{"distinct": len(m), "counts": out}
	}
	cov["classes"] = sets
	inc := map[string]int64{}
	for k, v := range r.inconclusive {
		inc[k] = v
	}
	cov["inconclusive"] = inc
	cov["longest_pause_s"] = r.quiet.Seconds()
	kn := map[string]int{}
	for k, v := range r.knownHit {
		kn[k] = v
	}
	cov["known_findings_observed"] = kn
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": r.violations,
	}
	if len(r.assumptions) > 0 {
		ev["assumptions"] = r.assumptions
	}
	v := r.violations
	evals, nontriv := r.evals, r.nontrivial
	r.mu.Unlock()
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	dst := env("VERIF_EVIDENCE", filepath.Join(r.root, "evidence", r.Prop+".json"))
	_ = os.MkdirAll(filepath.Dir(dst), 0o755)
	if err := os.WriteFile(dst, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", r.Prop, r.Tier, r.Seed, evals, nontriv, v, time.Since(r.start).Seconds())
	if v > 0 {
		os.Exit(1)
	}
	if nontriv == 0 && r.only == "" {
		fmt.Fprintln(os.Stderr, "no non-trivial case was observed: the check decided nothing")
		os.Exit(3)
	}
	os.Exit(0)
}
