// Package farm is a set of scripted HTTP endpoints that record every request they receive.
package farm

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Req is one request as it arrived.
type Req struct {
	Server int
	Seq    int64
	Method string
	URI    string
	Header http.Header
	Body   []byte
	At     time.Time
}

// Reply is what a server does with a request.
type Reply struct {
	Mode   string // "http" (default), "reset", "hang", "garbage", "truncate", "close"
	Status int
	Header map[string]string
	Body   []byte
	Delay  time.Duration
}

// Farm is a set of endpoints.
type Farm struct {
	mu      sync.Mutex
	log     []Req
	seq     atomic.Int64
	servers []*server
	release chan struct{}
	fn      func(Req) Reply
}

type server struct {
	ln  net.Listener
	srv *http.Server
}

// New starts n endpoints; fn decides every reply.
func New(n int) *Farm {
	f := &Farm{release: make(chan struct{})}
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s := &server{ln: ln, srv: &http.Server{Handler: f.handler(i), ErrorLog: nil}}
		s.srv.ErrorLog = quiet
		go s.srv.Serve(ln)
		f.servers = append(f.servers, s)
	}
	return f
}

// Script sets the reply function and clears the log.
func (f *Farm) Script(fn func(Req) Reply) {
	f.mu.Lock()
	f.fn = fn
	f.log = nil
	close(f.release)
	f.release = make(chan struct{})
	f.mu.Unlock()
}

// Log returns the requests received since the last Script.
func (f *Farm) Log() []Req {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]Req(nil), f.log...)
}

// URL of endpoint i.
func (f *Farm) URL(i int) string { return "http://" + f.Addr(i) }

// Addr of endpoint i.
func (f *Farm) Addr(i int) string { return f.servers[i].ln.Addr().String() }

// Index of the endpoint with this base URL, or -1.
func (f *Farm) Index(url string) int {
	for i := range f.servers {
		if f.URL(i) == url {
			return i
		}
	}
	return -1
}

// Close stops everything.
func (f *Farm) Close() {
	f.mu.Lock()
	close(f.release)
	f.release = make(chan struct{})
	f.mu.Unlock()
	for _, s := range f.servers {
		s.srv.Close()
	}
}

func (f *Farm) handler(i int) http.HandlerFunc {
	return func(w http.ResponseWriter, q *http.Request) {
		body, _ := io.ReadAll(q.Body)
		req := Req{Server: i, Seq: f.seq.Add(1), Method: q.Method, URI: q.RequestURI, Header: q.Header.Clone(), Body: body, At: time.Now()}
		f.mu.Lock()
		f.log = append(f.log, req)
		fn, rel := f.fn, f.release
		f.mu.Unlock()
		r := Reply{Status: 200}
		if fn != nil {
			r = fn(req)
		}
		if r.Delay > 0 {
			select {
			case <-time.After(r.Delay):
			case <-rel:
			}
		}
		switch r.Mode {
		case "", "http":
			for k, v := range r.Header {
				w.Header().Set(k, v)
			}
			w.WriteHeader(r.Status)
			w.Write(r.Body)
			return
		case "hang":
			select {
			case <-rel:
			case <-q.Context().Done():
			}
			return
		}
		c, bw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer c.Close()
		switch r.Mode {
		case "reset":
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		case "garbage":
			bw.WriteString("\x16\x03\x01 this is not HTTP\r\n\r\n")
			bw.Flush()
		case "truncate": // announces the whole body, sends part of it
			n := len(r.Body) + 1
			fmt.Fprintf(bw, "HTTP/1.1 %d X\r\nContent-Length: %s\r\nContent-Type: application/json\r\n\r\n", r.Status, strconv.Itoa(n))
			bw.Write(r.Body)
			bw.Flush()
		case "close":
		}
	}
}

// Refused reserves a local port nothing listens on; release frees it.
func Refused() (url string, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("http://127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

// FreshClient is an HTTP client that opens a new connection per request, so that every
// logged request is one the caller made (no transparent transport retries).
func FreshClient(timeout time.Duration) *http.Client {
	return &http.Client{Timeout: timeout, Transport: &http.Transport{DisableKeepAlives: true, MaxIdleConns: 0}}
}

// Contains reports whether body bytes occur in any log entry.
func Contains(log []Req, b []byte) bool {
	for _, r := range log {
		if bytes.Contains(r.Body, b) {
			return true
		}
	}
	return false
}
