package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type request struct {
	method, path, body string
	hd                 map[string][]string
	nonsense           bool // must be refused
}

var goodBodies = []string{
	`{"key":"fresh","value":{"a":[1,2.5,"x"]},"expiration_ms":60000,"version":70,"origin":"n1","replicate":true,"age_ns":5}`,
	`{"key":"held","value":"x","expiration_ms":0,"version":3,"origin":"n1"}`,
	gossipBody,
}

func mutate(g *rand.Rand, s string) string {
	b := []byte(s)
	for i := 1 + g.Intn(5); i > 0 && len(b) > 1; i-- {
		at := g.Intn(len(b))
		switch g.Intn(5) {
		case 0:
			b[at] = byte(g.Intn(256))
		case 1:
			b = append(b[:at], b[at+1:]...)
		case 2:
			b = append(b[:at], append([]byte{"{}[]\",:0\x00e-.u\\"[g.Intn(14)]}, b[at:]...)...)
		case 3:
			b = b[:at+1]
		default:
			b = append(b, b[at:]...)
		}
	}
	return string(b)
}

var nonsense = []string{"", "nonsense", "{", "[", `"`, `{"key":`, `{"key":"fresh","value":1`, "\x00", "[1", `{"key":"fresh" "value":1}`, `<set key="fresh"/>`, "key=fresh&value=1", `{"key":5,"value":1}`, `{"key":"fresh","version":"x"}`,
	`{"key":"fresh","version":-1}`, `{"key":"fresh","expiration_ms":"soon"}`, `{"key":["fresh"]}`, `{"key":"fresh","replicate":"perhaps"}`, `{"key":"fresh","version":1e400}`, `{"key":"fresh","value":tru}`}

func draw(g *rand.Rand) request {
	switch g.Intn(8) {
	case 0:
		path := []string{"/internal/set", "/internal/cache/set", "/internal/gossip"}[g.Intn(3)]
		return request{"POST", path, nonsense[g.Intn(len(nonsense)-8*b2i(path == "/internal/gossip"))], nil, true}
	case 1, 2, 3:
		return request{"POST", []string{"/internal/set", "/internal/cache/set", "/internal/gossip"}[g.Intn(3)], mutate(g, goodBodies[g.Intn(3)]), nil, false}
	case 4: // bad encodings
		enc := []string{"gzip", "br", "deflate", "zstd", "compress", "x-gzip", "gzip, gzip", "nonsense", "gzip, nonsense", "identity, gzip", ","}[g.Intn(11)]
		b := make([]byte, g.Intn(100))
		g.Read(b)
		if g.Intn(3) == 0 {
			b = append([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3}, b...)
		}
		return request{"POST", []string{"/internal/set", "/internal/gossip"}[g.Intn(2)], "\x01" + string(b), map[string][]string{"Content-Encoding": {enc}}, true}
	case 5:
		q := []string{"", "?", "?key=", "?key", "?KEY=held", "?key=held&replicate=maybe", "?replicate=true", "?key=held&version=x", "?key=held&version=-1", "?key=held&version=1e3", "?key=held&version=99999999999999999999999", "?key=held&replicate=yes&version=3"}[g.Intn(12)]
		return request{"DELETE", []string{"/internal/del", "/internal/cache/remove"}[g.Intn(2)] + q, "", nil, true}
	case 6:
		q := []string{"/internal/get", "/internal/get?key=", "/internal/cache/get?", "/internal/probe", "/internal/probe?target=", "/internal/probe?target=nobody", "/internal/keys?cursor=-1", "/internal/keys?cursor=x", "/internal/keys?limit=-1", "/internal/keys?limit=z",
			"/internal/keys?q=%5B", "/internal/keys?q=%5Ba-", "/internal/keys?cursor=99999999999999999999999", "/internal/nothing", "/"}[g.Intn(15)]
		return request{"GET", q, "", nil, true}
	}
	// the wrong method
	return request{[]string{"PUT", "PATCH", "GET", "DELETE", "OPTIONS", "TRACE"}[g.Intn(6)], []string{"/internal/set", "/internal/gossip", "/dist/drain"}[g.Intn(3)], goodBodies[0], nil, true}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Malformed requests: a node survives them all, answers 4xx to what makes no sense, and a refused request changes nothing.
func malformed(r *kit.Run) {
	if !r.Phase("malformed") {
		return
	}
	for c := 0; c < r.N(4, 20); c++ {
		g := r.Rand("malformed", c)
		cl := dcl.New(dcl.Conf{N: 2, RF: 2, HTTP: true, Plain: true, Limits: backend.DistHTTPLimits{BodyLimit: 1 << 20, ReadTimeout: time.Second}})
		n := cl.Nodes[0]
		base := "http://" + cl.Addr(0)
		put := func() {
			_ = cl.Net.In.ForwardSet(bg, "n0", &cache.Item{Key: "held", Value: "precious", Version: 1 << 40, Origin: "n0"}, false)
		}
		put()
		var trail []string
		for i := 0; i < r.N(300, 1500); i++ {
			q := draw(g)
			trail = append(trail, fmt.Sprintf("%s %s %.300q %v", q.method, q.path, q.body, q.hd))
			if len(trail) > 20 {
				trail = trail[1:]
			}
			before := photo(n, cl)
			res, err := send(q.method, base+q.path, q.body, q.hd)
			if err != nil {
				if !alive(base) {
					r.ViolateWith("node-gone", trail, "the node stopped answering after %s %s %.200q: %v", q.method, q.path, q.body, err)
					return
				}
				continue
			}
			r.Case(fmt.Sprintf("malformed %d %d", c, i), true)
			r.Seen("answers", fmt.Sprint(res.status))
			if q.nonsense && (res.status < 400 || res.status >= 500 && res.status != 501) {
				r.Violate("nonsense:"+q.method+" "+strings.Split(q.path, "?")[0], "%s %s %.200q (%v) answered %d %.80q", q.method, q.path, q.body, q.hd, res.status, res.body)
			}
			if !q.nonsense && res.status < 300 && !json.Valid([]byte(q.body)) && !lenient(q.body) && truncated(q.body) {
				r.Violate("truncated-accepted", "%s %s %.300q answered %d", q.method, q.path, q.body, res.status)
			}
			if after := photo(n, cl); res.status >= 400 && res.status < 500 && after != before {
				r.Violate("refused-effect", "%s %s %.200q answered %d, yet\nbefore %s\nafter  %s", q.method, q.path, q.body, res.status, before, after)
			}
			if it, ok := cl.Local("n0", "held"); !ok && q.method == "POST" || ok && it.Version == 1<<40 && it.Value != "precious" {
				r.Violate("held-lost", "after %s %s %.200q the node's item is %v %v", q.method, q.path, q.body, ok, it)
			}
		}
		// Things that are no HTTP, or barely.
		for i := 0; i < r.N(60, 400); i++ {
			b := rawRequests[g.Intn(len(rawRequests))]
			if g.Intn(3) == 0 {
				x := make([]byte, g.Intn(400))
				g.Read(x)
				b += string(x)
			}
			before := photo(n, cl)
			raw(cl.Addr(0), b)
			r.Case(fmt.Sprintf("raw request %d %d", c, i), true)
			if after := photo(n, cl); after != before {
				r.Violate("raw-effect", "%.200q changed the node\nbefore %s\nafter  %s", b, before, after)
			}
		}
		for _, s := range []string{strings.Repeat("[", 900000), strings.Repeat(`{"value":`, 100000), `{"key":"deep","value":` + strings.Repeat("[", 400000) + strings.Repeat("]", 400000) + "}",
			`{"key":"deep2","value":` + strings.Repeat(`{"a":`, 100000) + "1" + strings.Repeat("}", 100000) + "}"} {
			_, _ = send("POST", base+"/internal/set", s, nil)
			_, _ = send("POST", base+"/internal/gossip", s, nil)
			r.Case(fmt.Sprintf("deep %d %.20s", len(s), s), true)
		}
		if !alive(base) {
			r.ViolateWith("node-gone", trail, "the node does not answer any more")
		}
		put()
		if res, err := send("GET", base+"/internal/get?key=held", "", nil); err != nil || res.status != 200 || !strings.Contains(string(res.body), `"found":true`) {
			r.Violate("held-lost", "at the end the held item reads %v %d %.200q", err, res.status, res.body)
		}
		cl.Stop()
	}
}

// truncated reports a body that ends inside a JSON document.
func truncated(s string) bool {
	var v any
	err := json.NewDecoder(strings.NewReader(s)).Decode(&v)
	return err == io.ErrUnexpectedEOF
}

func alive(base string) bool {
	return dcl.Eventually(5*time.Second, func() bool {
		res, err := send("GET", base+"/health", "", nil)
		return err == nil && (res.status == 200 || res.status == 503)
	})
}

func raw(addr, b string) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(300 * time.Millisecond))
	_, _ = io.WriteString(c, b)
	if t, ok := c.(*net.TCPConn); ok {
		_ = t.CloseWrite()
	}
	_, _ = io.Copy(io.Discard, io.LimitReader(c, 1<<20))
}

var rawRequests = []string{
	"", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET", "GET /health", "GET /internal/get?key=held HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n",
	"POST /internal/set HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n{\"key\":\"raw\",\"value\":1}", "POST /internal/set HTTP/1.1\r\nHost: x\r\nContent-Length: 99999999999\r\n\r\n{",
	"POST /internal/set HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n{}", "POST /internal/set HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"key", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
	"DELETE /internal/del?key=%zz HTTP/1.1\r\nHost: x\r\n", "GET /internal/keys HTTP/1.1\r\n" + strings.Repeat("X-A: b\r\n", 3000) + "\r\n", "\r\n\r\n\r\n", "GET http://[::1]:x/ HTTP/1.1\r\n\r\n",
}
