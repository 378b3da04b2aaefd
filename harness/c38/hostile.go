package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// peer is a peer the monitor runs itself.
type peer struct {
	srv   *httptest.Server
	mu    sync.Mutex
	log   []sighting
	serve atomic.Pointer[http.HandlerFunc]
	wrote atomic.Int64
}

type sighting struct {
	path, body, mac string
	hd              http.Header
	plain           int
}

func newPeer() *peer {
	p := &peer{}
	p.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		raw, _ := io.ReadAll(q.Body)
		if q.Header.Get("Content-Encoding") == "gzip" {
			if z, err := gzip.NewReader(bytes.NewReader(raw)); err == nil {
				raw, _ = io.ReadAll(z)
			}
		}
		q.URL.Host, q.URL.Scheme = "", ""
		p.mu.Lock()
		p.log = append(p.log, sighting{q.URL.String(), string(raw), mac(q), q.Header.Clone(), len(raw)})
		p.mu.Unlock()
		if h := p.serve.Load(); h != nil {
			(*h)(w, q)
			return
		}
		fmt.Fprint(w, `{}`)
	}))
	return p
}

func (p *peer) close() { p.srv.CloseClientConnections(); p.srv.Close() }

func (p *peer) transport(l backend.DistHTTPLimits, a backend.DistHTTPAuth) *backend.DistHTTPTransport {
	return backend.NewDistHTTPTransportWithAuth(l, a, func(string) (string, bool) { return p.srv.URL, true })
}

func (p *peer) during(fn func()) []sighting {
	p.mu.Lock()
	p.log = nil
	p.mu.Unlock()
	fn()
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]sighting(nil), p.log...)
}

// Sizes next to the limits.
func limits(r *kit.Run) {
	if !r.Phase("limits") {
		return
	}
	for c := 0; c < r.N(3, 12); c++ {
		g := r.Rand("limits", c)
		lim := []int{600, 5000, 70000}[c%3] + g.Intn(50)
		l := backend.DistHTTPLimits{BodyLimit: lim, ResponseLimit: 1 << 30}
		for _, own := range []bool{true, false} { // the node's own transport does not compress; nor does a stranger's request
			cl := one(dcl.Conf{Limits: l, Plain: true})
			t := direct(cl, l, backend.DistHTTPAuth{})
			for _, d := range []int{-lim / 2, -40, -9, -2, -1, 0, 1, 2, 50, lim, 20 * lim} {
				k := fmt.Sprintf("size%d", d)
				env, _ := json.Marshal(map[string]any{"key": k, "value": "", "version": 5, "origin": "n0"})
				v := strings.Repeat("v", lim+d-len(env))
				body, _ := json.Marshal(map[string]any{"key": k, "value": v, "version": 5, "origin": "n0"})
				var err error
				if own {
					n := len(v) - 100 // the product's own envelope has a few more fields
					if d < 0 {
						err = t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: v[:max(0, n)], Version: 5, Origin: "n0"}, false)
					} else {
						err = t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: v, Version: 5, Origin: "n0"}, false)
					}
				} else {
					var res reply
					res, err = send("POST", "http://"+cl.Addr(0)+"/internal/set", string(body), nil)
					if err == nil && res.status >= 300 {
						err = fmt.Errorf("status %d", res.status)
					}
				}
				_, stored := cl.Local("n0", k)
				r.Case(fmt.Sprintf("limit %d %v %d", c, own, d), true)
				over := d > 0
				if own && d == 0 {
					over = true // the envelope is over
				}
				if over && (err == nil || stored) {
					r.Violate("body-limit", "body %d bytes over the limit of %d (own transport %v): error %v, stored %v", d, lim, own, err, stored)
				}
				if !over && (err != nil || !stored) {
					r.Violate("body-within", "body %d bytes under the limit of %d (own transport %v): error %v, stored %v", -d, lim, own, err, stored)
				}
			}
			// A compressed body that inflates past the limit is not stored either.
			var z bytes.Buffer
			w := gzip.NewWriter(&z)
			big, _ := json.Marshal(map[string]any{"key": "bomb", "value": strings.Repeat("v", 40*lim), "version": 5, "origin": "n0"})
			_, _ = w.Write(big)
			_ = w.Close()
			if z.Len() < lim {
				res, err := send("POST", "http://"+cl.Addr(0)+"/internal/set", z.String(), map[string][]string{"Content-Encoding": {"gzip"}})
				if _, stored := cl.Local("n0", "bomb"); stored || err == nil && res.status < 300 {
					r.Violate("body-limit:inflated", "a body inflating to %d bytes with a limit of %d: status %d, stored %v", len(big), lim, res.status, stored)
				}
				r.Case("bomb", true)
			}
			cl.Stop()
		}
		// Responses: an item of known size fetched through transports of different limits.
		cl := one(dcl.Conf{Plain: true})
		_ = cl.Net.In.ForwardSet(bg, "n0", &cache.Item{Key: "big", Value: strings.Repeat("v", 3000), Version: 5, Origin: "n0"}, false)
		res, err := send("GET", "http://"+cl.Addr(0)+"/internal/get?key=big", "", nil)
		if err == nil {
			n := int64(len(res.body))
			for _, d := range []int64{-2900, -500, -1, 20, 200} { // age digits make the body vary by a few bytes
				t := direct(cl, backend.DistHTTPLimits{ResponseLimit: n + d}, backend.DistHTTPAuth{})
				it, ok, err := t.ForwardGet(bg, "n0", "big")
				r.Case(fmt.Sprintf("resp %d", d), true)
				if d < -1 && (err == nil || ok) {
					r.Violate("response-limit", "response of %d bytes with limit %d: %v %v", n, n+d, ok, err)
				}
				if d > 0 && (err != nil || !ok || len(fmt.Sprint(dcl.Plain(it.Value))) != 3000) {
					r.Violate("response-within", "response of %d bytes with limit %d: %v %v", n, n+d, ok, err)
				}
			}
		}
		cl.Stop()
	}
	endless(r)
	hung(r)
}

// A peer that answers without end gets no more than the limit read from it.
func endless(r *kit.Run) {
	p := newPeer()
	defer p.close()
	const most = 24 << 20 // the socket buffers hold some of it
	for _, status := range []int{200, 400, 500} {
		h := http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
			w.WriteHeader(status)
			junk := []byte(strings.Repeat(" ", 1<<16))
			for i := 0; i < 2048; i++ { // 128 MiB
				n, err := w.Write(junk)
				p.wrote.Add(int64(n))
				if err != nil {
					return
				}
			}
		})
		p.serve.Store(&h)
		for name, op := range ops(p.transport(backend.DistHTTPLimits{ResponseLimit: 20000, ClientTimeout: 20 * time.Second}, backend.DistHTTPAuth{})) {
			p.wrote.Store(0)
			err := op()
			time.Sleep(5 * time.Millisecond)
			r.Case(fmt.Sprintf("endless %s %d", name, status), true)
			r.Max("bytes pushed into an endless response", p.wrote.Load())
			if n := p.wrote.Load(); n > most {
				r.Violate("endless-response:"+name, "%s read at least %d bytes of a response, limit 20000", name, n-most)
			}
			if err == nil && (status != 200 || name == "get" || name == "merkle" || name == "keys") {
				r.Violate("endless-accepted:"+name, "%s of an endless response with status %d succeeded", name, status)
			}
		}
	}
}

// A peer that never answers costs the caller the client timeout.
func hung(r *kit.Run) {
	p := newPeer()
	defer p.close()
	done := make(chan struct{})
	defer close(done)
	h := http.HandlerFunc(func(http.ResponseWriter, *http.Request) { <-done })
	p.serve.Store(&h)
	for name, op := range ops(p.transport(backend.DistHTTPLimits{ClientTimeout: 50 * time.Millisecond}, backend.DistHTTPAuth{})) {
		t := time.Now()
		err := op()
		r.Case("hung "+name, true)
		if d := time.Since(t); err == nil || d > 4*time.Second || d < 45*time.Millisecond {
			r.Violate("client-timeout:"+name, "%s against a hung peer: %v after %v (timeout 50ms)", name, err, d)
		}
	}
}

func garbage(g *rand.Rand) (int, string) {
	switch g.Intn(8) {
	case 0:
		return 200, ""
	case 1:
		return 200, "ok"
	case 2:
		b := make([]byte, g.Intn(200))
		g.Read(b)
		return 200, string(b)
	case 3:
		return 200, strings.Repeat("[", 1+g.Intn(100000))
	case 4:
		return 200, strings.Repeat(`{"item":`, 1+g.Intn(50000))
	case 5:
		return []int{400, 401, 403, 404, 409, 413, 418, 500, 502, 503, 504}[g.Intn(11)], `{"error":"no"}`
	case 6:
		return 200, []string{"null", "[]", "1", `"x"`, "true", `{"found":"yes"}`, `{"found":true,"item":5}`, `{"found":true,"item":{"key":7}}`, `{"found":true,"item":{"version":-1}}`,
			`{"keys":5}`, `{"keys":["a",null,3]}`, `{"next_cursor":{}}`, `{"root":"!!","leaf_hashes":3}`, `{"chunk_size":"x"}`, `{"superseded":"x"}`, `{"found":true`, `{"age_ns":"x","found":true}`}[g.Intn(17)]
	}
	good := `{"found":true,"item":{"Key":"k","Value":{"a":[1,2,3]},"Expiration":5,"Version":7,"Origin":"o"},"age_ns":77,"keys":["a","b"],"next_cursor":"","root":"AAAA","leaf_hashes":["AAAA"],"chunk_size":128,"superseded":9}`
	b := []byte(good)
	for i := 1 + g.Intn(4); i > 0; i-- {
		switch at := g.Intn(len(b)); g.Intn(3) {
		case 0:
			b[at] = byte(g.Intn(256))
		case 1:
			b = append(b[:at], b[at+1:]...)
		default:
			b = append(b[:at], append([]byte{"{}[]\",:0\x00e-."[g.Intn(12)]}, b[at:]...)...)
		}
	}
	return 200, string(b)
}

// Peers that answer nonsense: errors, never crashes.
func hostilePeer(r *kit.Run) {
	if !r.Phase("hostile-peer") {
		return
	}
	p := newPeer()
	defer p.close()
	t := p.transport(backend.DistHTTPLimits{ClientTimeout: 2 * time.Second}, backend.DistHTTPAuth{})
	for i := 0; i < r.N(600, 12000); i++ {
		g := r.Rand("hostile", i)
		status, body := garbage(g)
		broken := g.Intn(12) == 0
		h := http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
			if broken {
				w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
			}
			if g.Intn(20) == 0 {
				w.Header().Set("Content-Encoding", "gzip")
			}
			w.WriteHeader(status)
			_, _ = io.WriteString(w, body)
		})
		p.serve.Store(&h)
		for name, op := range ops(t) {
			r.Guard(func() {
				err := op()
				r.Case(fmt.Sprintf("hostile %d %s", i, name), true)
				r.Seen("status answered", fmt.Sprint(status))
				reads := name == "get" || name == "merkle" || name == "keys"
				switch {
				case status >= 300 && err == nil:
					r.Violate("failure-ignored:"+name, "%s answered %d %.80q: no error", name, status, body)
				case status == 200 && reads && err == nil && !json.Valid([]byte(body)) && !lenient(body):
					r.Violate("garbage-accepted:"+name, "%s answered with garbage %.200q: no error", name, body)
				case status == 200 && reads && err == nil && broken:
					r.Violate("truncated-accepted:"+name, "%s got a truncated response %.200q: no error", name, body)
				}
			})
		}
	}
	for i := 0; i < r.N(60, 400); i++ { // not even HTTP
		g := r.Rand("raw-peer", i)
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					b := make([]byte, 4096)
					_ = c.SetDeadline(time.Now().Add(2 * time.Second))
					_, _ = c.Read(b)
					_, _ = io.WriteString(c, rawReplies[i%len(rawReplies)])
					_ = c.Close()
				}()
			}
		}()
		raw := backend.NewDistHTTPTransportWithLimits(backend.DistHTTPLimits{ClientTimeout: time.Second}, func(string) (string, bool) { return "http://" + ln.Addr().String(), true })
		for name, op := range ops(raw) {
			r.Guard(func() {
				unread := (name == "health" || name == "indirect" || name == "gossip") && strings.HasPrefix(rawReplies[i%len(rawReplies)], "HTTP/1.1 200") // the status is all they need
				if err := op(); err == nil && !unread {
					r.Violate("raw-accepted:"+name, "%s answered with %.80q: no error", name, rawReplies[i%len(rawReplies)])
				}
				r.Case(fmt.Sprintf("raw %d %s", i, name), true)
			})
		}
		_ = ln.Close()
		_ = g
	}
	for _, u := range []string{"", "://", "ftp://127.0.0.1:1", "127.0.0.1:80", "http://", "/x", "http://127.0.0.1:1", "http://[::1", "file:///etc/passwd", "http://127.0.0.1:99999"} { // addresses that are none
		bad := backend.NewDistHTTPTransport(200*time.Millisecond, func(string) (string, bool) { return u, true })
		for name, op := range ops(bad) {
			r.Guard(func() {
				if err := op(); err == nil {
					r.Violate("address-accepted:"+name, "%s to address %q: no error", name, u)
				}
				r.Case("address "+u+name, true)
			})
		}
	}
}

// lenient: strings with raw control characters or invalid UTF-8 are accepted by some decoders; the damage is in the text alone.
func lenient(s string) bool {
	b := []byte(s)
	for i := range b {
		if b[i] < 0x20 || b[i] >= 0x7f {
			return true
		}
	}
	return false
}

var rawReplies = []string{
	"", "\x00\x01\x02", "HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\nshort", "HTTP/9.9 2000 ?\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n{}",
	"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "SSH-2.0-x\r\n", "HTTP/1.1 200", "HTTP/1.1 500 X\r\nContent-Length: 5\r\n\r\nab",
}
