// Package srv runs the real server binary, alone or as a cluster on loopback ports.
package srv

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Server is one running process.
type Server struct {
	ID, API, Mgmt, Dist string // addresses without scheme
	cmd                 *exec.Cmd
	out                 buffer
	done                chan struct{}
	err                 error
	stopping            bool
}

type buffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.b.Len() > 4<<20 {
		b.b.Next(2 << 20)
	}
	return b.b.Write(p)
}

// Log is what the process wrote.
func (s *Server) Log() string { s.out.mu.Lock(); defer s.out.mu.Unlock(); return s.out.b.String() }

var starter = make(chan func())

func init() { // children die with the thread that started them: one that lives as long as this process
	go func() {
		runtime.LockOSThread()
		for f := range starter {
			f()
		}
	}()
}

// Ports finds free loopback addresses.
func Ports(n int) []string {
	var ls []net.Listener
	var out []string
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		ls, out = append(ls, l), append(out, l.Addr().String())
	}
	for _, l := range ls {
		_ = l.Close()
	}
	return out
}

// New describes a server with addresses of its own; Run starts it.
func New(id string) *Server {
	p := Ports(3)
	return &Server{ID: id, API: p[0], Mgmt: p[1], Dist: p[2]}
}

// Run starts the process with the environment given besides its addresses; nothing else of ours gets through to it.
func (s *Server) Run(env map[string]string) {
	s.cmd = exec.Command(os.Getenv("VERIF_SERVER_BIN"))
	s.cmd.Dir = os.Getenv("VERIF_WORK")
	s.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=" + os.Getenv("VERIF_WORK"), "GORACE=" + os.Getenv("GORACE"), "GOTRACEBACK=all",
		"HYPERCACHE_NODE_ID=" + s.ID, "HYPERCACHE_API_ADDR=" + s.API, "HYPERCACHE_MGMT_ADDR=" + s.Mgmt, "HYPERCACHE_DIST_ADDR=" + s.Dist}
	for k, v := range env {
		s.cmd.Env = append(s.cmd.Env, k+"="+v)
	}
	s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	s.done = make(chan struct{})
	started := make(chan error)
	starter <- func() { started <- s.cmd.Start() }
	if err := <-started; err != nil {
		panic(err)
	}
	go func() { s.err = s.cmd.Wait(); close(s.done) }()
}

// Exited reports whether the process is gone, and how.
func (s *Server) Exited() (bool, error) {
	select {
	case <-s.done:
		return true, s.err
	default:
		return false, nil
	}
}

// WaitExit waits for the process to end by itself.
func (s *Server) WaitExit(limit time.Duration) bool {
	select {
	case <-s.done:
		return true
	case <-time.After(limit):
		return false
	}
}

// Crashed reports a panic or fatal error in the log of a process that ended without being told to.
func (s *Server) Crashed() string {
	gone, err := s.Exited()
	l := s.Log()
	if i := strings.Index(l, "panic: "); i >= 0 {
		return l[i:min(len(l), i+3000)]
	}
	if i := strings.Index(l, "fatal error: "); i >= 0 {
		return l[i:min(len(l), i+3000)]
	}
	if gone && !s.stopping {
		return fmt.Sprintf("exited by itself: %v\n%s", err, l[max(0, len(l)-1500):])
	}
	return ""
}

// Stop ends it gracefully; false if it did not within the limit (it is killed then).
func (s *Server) Stop(limit time.Duration) bool {
	s.stopping = true
	_ = s.cmd.Process.Signal(syscall.SIGTERM)
	if s.WaitExit(limit) {
		return true
	}
	s.Kill()
	return false
}

// Kill ends it at once.
func (s *Server) Kill() {
	s.stopping = true
	_ = s.cmd.Process.Kill()
	<-s.done
}

// Client for the API; redirects are not followed.
var Client = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

// Reply to a request.
type Reply struct {
	Status int
	Header http.Header
	Body   []byte
}

// JSON of the body.
func (r Reply) JSON() map[string]any {
	var m map[string]any
	d := json.NewDecoder(bytes.NewReader(r.Body))
	d.UseNumber()
	if d.Decode(&m) != nil {
		return nil
	}
	return m
}

// Do sends one request; the path is sent as it is.
func Do(method, addr, path string, body []byte, hd ...string) (Reply, error) {
	u := "http://" + addr + path
	if strings.HasPrefix(addr, "http") {
		u = addr + path
	}
	req, err := http.NewRequest(method, u, bytes.NewReader(body))
	if err != nil {
		return Reply{}, err
	}
	for i := 0; i+1 < len(hd); i += 2 {
		if hd[i+1] != "" {
			req.Header.Set(hd[i], hd[i+1])
		}
	}
	res, err := Client.Do(req)
	if err != nil {
		return Reply{}, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(io.LimitReader(res.Body, 64<<20))
	return Reply{res.StatusCode, res.Header, b}, err
}

// Up waits until the API answers.
func (s *Server) Up(limit time.Duration) bool {
	up := false
	poll(limit, func() bool {
		if gone, _ := s.Exited(); gone {
			return true
		}
		r, err := Do("GET", s.API, "/healthz", nil)
		up = err == nil && r.Status == 200
		return up
	})
	return up
}

func poll(limit time.Duration, f func() bool) bool {
	for t := time.Now(); time.Since(t) < limit; time.Sleep(20 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return false
}

// Cluster starts n servers that know each other and waits until each sees all. auth is the header value the management
// port wants, if any. Nil if they do not come together.
func Cluster(n, rf int, env map[string]string, auth string) []*Server {
	var ss []*Server
	for i := 0; i < n; i++ {
		ss = append(ss, New(fmt.Sprintf("node-%d", i)))
	}
	for i, s := range ss {
		e := map[string]string{"HYPERCACHE_REPLICATION": fmt.Sprint(rf), "HYPERCACHE_LOG_LEVEL": "error"}
		var seeds []string
		for j, o := range ss {
			if j != i {
				seeds = append(seeds, o.ID+"@"+o.Dist)
			}
		}
		if len(seeds) > 0 {
			e["HYPERCACHE_SEEDS"] = strings.Join(seeds, ",")
		}
		for k, v := range env {
			e[k] = v
		}
		s.Run(e)
	}
	for _, s := range ss {
		ok := s.Up(30*time.Second) && poll(30*time.Second, func() bool {
			r, err := Do("GET", s.Mgmt, "/cluster/members", nil, "Authorization", auth)
			return err == nil && r.Status == 200 && strings.Count(string(r.Body), `"alive"`) >= n
		})
		if !ok {
			Stop(ss)
			return nil
		}
	}
	return ss
}

// Stop ends them all.
func Stop(ss []*Server) {
	for _, s := range ss {
		s.Kill()
	}
}

func dial(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err == nil {
		_ = c.Close()
	}
	return err == nil
}
