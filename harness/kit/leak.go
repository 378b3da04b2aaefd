package kit

import (
	"runtime"
	"strings"
	"time"
)

// RepoGoroutines returns the stacks of the goroutines that the code under test started (or that run in it), leaving
// out those of the harness itself.
func RepoGoroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var res []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		ours := false
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "github.com/hyp3rd/hypercache") && !strings.Contains(l, "/internal/vh/") && !strings.HasPrefix(l, "\t") {
				ours = true
			}
		}
		if ours && !strings.Contains(g, "/internal/vh/") {
			res = append(res, g)
		}
	}
	return res
}

// Drained waits until at most base goroutines of the code under test are left, and returns the stacks of the rest.
func Drained(base int, limit time.Duration) []string {
	end := time.Now().Add(limit)
	for {
		gs := RepoGoroutines()
		if len(gs) <= base {
			return nil
		}
		if time.Now().After(end) {
			return gs
		}
		time.Sleep(2 * time.Millisecond)
	}
}
