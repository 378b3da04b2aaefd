package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/srv"
)

// raw sends bytes no HTTP library would.
func raw(addr, method, path string, body []byte, hd ...string) (srv.Reply, error) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return srv.Reply{}, err
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(20 * time.Second))
	h := ""
	for i := 0; i+1 < len(hd); i += 2 {
		h += hd[i] + ": " + hd[i+1] + "\r\n"
	}
	if _, err := fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n%s\r\n%s", method, path, len(body), h, body); err != nil {
		return srv.Reply{}, err
	}
	res, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return srv.Reply{}, err
	}
	defer res.Body.Close()
	var b bytes.Buffer
	_, _ = b.ReadFrom(res.Body)
	return srv.Reply{Status: res.StatusCode, Header: res.Header, Body: b.Bytes()}, nil
}

func zipped(b []byte) []byte {
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	_, _ = w.Write(b)
	_ = w.Close()
	return out.Bytes()
}

func malformed(r *kit.Run) {
	if !r.Phase("malformed") {
		return
	}
	for i := 0; i < r.N(2, 6) && r.Violations() == 0; i++ {
		n := 1 + 2*(i%2)
		g := r.Rand("malformed", i)
		ss := srv.Cluster(n, 1+g.Intn(n), map[string]string{"HYPERCACHE_HEARTBEAT": "5s"}, "")
		if ss == nil {
			r.Inconclusive("the servers did not come together")
			continue
		}
		refuse(r, g, ss)
		srv.Stop(ss)
	}
}

func refuse(r *kit.Run, g *rand.Rand, ss []*srv.Server) {
	const key = "kept"
	var want = []byte("this stays")
	if rep, err := srv.Do("PUT", ss[0].API, "/v1/cache/"+key, want, "Content-Type", ""); err != nil || rep.Status != 200 {
		r.Inconclusive(fmt.Sprintf("put: %v %d", err, rep.Status))
		return
	}
	type req struct {
		name, method, path string
		body               []byte
		hd                 []string
		coded              bool // answers with the code BAD_REQUEST
	}
	p := "/v1/cache/" + key
	bp := "/v1/cache/batch/"
	half := zipped([]byte(strings.Repeat("something else ", 50)))
	bomb := zipped(make([]byte, 64<<20))
	var list []req
	for _, t := range []string{"abc", "-1s", "-1ns", "-24h", "1", "10", "5x", "1h-2m", "99999999999h", "9223372036854775808ns", "%zz", "NaN", "1e3s", "%201s", "--1s", "ms", ".s"} {
		list = append(list, req{"ttl=" + t, "PUT", p + "?ttl=" + t, []byte("evil"), nil, true})
	}
	for _, k := range []string{"%zz", "%", "a%4", "%G0", "kept%"} {
		for _, m := range []string{"PUT", "GET", "DELETE"} {
			list = append(list, req{m + " escape " + k, m, "/v1/cache/" + k, []byte("evil"), nil, m != "HEAD"})
		}
		list = append(list, req{"owners escape " + k, "GET", "/v1/owners/" + k, nil, nil, true})
	}
	for _, k := range []string{"%20", "%09", "%20%20", "%C2%A0"} {
		list = append(list, req{"blank key " + k, "PUT", "/v1/cache/" + k, []byte("evil"), nil, true})
	}
	for _, e := range []struct {
		enc  string
		body []byte
	}{{"gzip", []byte("not gzip")}, {"gzip", half[:len(half)/2]}, {"gzip", nil}, {"deflate", []byte("not deflate")}, {"br", []byte("\xff\xff\xff not brotli")},
		{"zstd", []byte("not zstd")}, {"rot13", []byte("evil")}, {"gzip", bomb}} {
		list = append(list, req{fmt.Sprintf("PUT %s %.12q", e.enc, e.body), "PUT", p, e.body, []string{"Content-Encoding", e.enc}, false})
	}
	for _, b := range []string{"", "{", "x", "[]", `"k"`, "1", `{"items":"x","keys":"x"}`, `{"items":{},"keys":{}}`, `{"items":[1],"keys":[1]}`, `{"items":[{"key":1}],"keys":[null,{}]}`,
		`{"items":[{"key":"kept","value":1}],"keys":["kept",1]}`, `{"items":[{"key":"kept","value":"evil"}],"keys":["kept"]} x`, `{"items":[{"key":"kept","value":"evil"}],"keys":["kept"]`,
		`{"items":[{"key":"kept","value":"evil"},{"key":"a","value":"evil","ttl_ms":"5"}],"keys":["kept",true]}`, `{"items":[{"key":"kept","value":"evil","ttl_ms":1.5}],"keys":[["kept"]]}`,
		`{"items":[{"key":"kept","value":"evil","ttl_ms":99999999999999999999}],"keys":["kept",[]]}`, "\xef\xbb\xbf{}", `{'items':[]}`, `{"items":[{"key":"kept","value":["evil"]}],"keys":[0]}`} {
		for _, op := range []string{"get", "put", "delete"} {
			list = append(list, req{"batch " + op + " " + b, "POST", bp + op, []byte(b), nil, true})
		}
	}
	for _, op := range []string{"put", "delete"} {
		list = append(list, req{"batch corrupt " + op, "POST", bp + op, half[:len(half)/2], []string{"Content-Encoding", "gzip"}, false})
	}
	for _, m := range []string{"POST", "PATCH", "OPTIONS", "TRACE"} {
		list = append(list, req{m, m, p, []byte("evil"), nil, false})
	}
	for _, m := range []string{"GET", "PUT", "DELETE"} {
		list = append(list, req{m + " nothing", m, "/v1/cache/", []byte("evil"), nil, false})
		list = append(list, req{m + " deeper", m, "/v1/cache/kept/more", []byte("evil"), nil, false})
		list = append(list, req{m + " batch", m, bp + "put", []byte(`{"items":[{"key":"kept","value":"evil"}]}`), nil, false})
	}
	for _, q := range []string{"limit=0", "limit=x", "limit=-1", "cursor=-1", "cursor=x", "max=0", "max=1.5", "q=["} {
		list = append(list, req{"keys " + q, "GET", "/v1/cache/keys?" + q, nil, nil, true})
	}
	list = append(list, req{"too large", "PUT", p, make([]byte, 5<<20), nil, false})
	g.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	for _, q := range list {
		s := ss[g.Intn(len(ss))]
		rep, err := raw(s.API, q.method, q.path, q.body, q.hd...)
		r.Add("refusals", int64(1))
		r.Seen("malformed", q.name)
		switch {
		case err != nil:
			if s.Crashed() != "" || len(q.body) < 1<<20 {
				r.Violate("malformed:"+q.name, "%s: %s %s is not answered: %v %s", q.name, q.method, q.path, err, s.Crashed())
			}
		case q.name == "keys q=[" && len(ss) == 1:
		case rep.Status < 400 || rep.Status > 499:
			r.Violate("malformed:"+q.name, "%s: %s %s %.60q is answered %d %.200q", q.name, q.method, q.path, q.body, rep.Status, rep.Body)
		case q.coded && (rep.Status != 400 || code(rep) != "BAD_REQUEST" || str(rep.JSON()["error"]) == ""):
			r.Violate("malformed-code:"+q.name, "%s: %s %s %.60q is answered %d %.200q", q.name, q.method, q.path, q.body, rep.Status, rep.Body)
		}
		for _, o := range ss {
			if rep, err := srv.Do("GET", o.API, p, nil); err != nil || rep.Status != 200 || !bytes.Equal(rep.Body, want) {
				r.Violate("malformed-effect", "after %s (%s %s %.60q) the key holds %d %.80q on %s (%v)", q.name, q.method, q.path, q.body, rep.Status, rep.Body, o.ID, err)
				return
			}
		}
	}
	// items that are wrong for themselves
	items := []map[string]any{{"key": "", "value": "x"}, {"key": " ", "value": "x"}, {"key": "\t", "value": "x"}, {"key": "i1", "value": "%%%", "value_encoding": "base64"}, {"key": "i2", "value": "YQ", "value_encoding": "base64"},
		{"key": "i3", "value": "x", "ttl_ms": -1}, {"key": "i4", "value": "x", "ttl_ms": int64(1) << 61}, {"value": "x"}}
	good := 0
	for j := range 30 {
		if j < len(items) {
			items[j]["bad"] = true
		}
	}
	for j := range 12 {
		items = append(items, map[string]any{"key": "ok" + strconv.Itoa(j), "value": "v" + strconv.Itoa(j)})
	}
	g.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	s := ss[g.Intn(len(ss))]
	b, _ := json.Marshal(map[string]any{"items": items})
	rep, err := raw(s.API, "POST", bp+"put", b)
	var out struct {
		Results []struct {
			Key, Error, Code string
			Stored           bool
		}
	}
	if err != nil || rep.Status != 200 || json.Unmarshal(rep.Body, &out) != nil || len(out.Results) != len(items) {
		r.Violate("batch-partial", "a batch with %d items, some wrong, is answered %d %.300q %v", len(items), rep.Status, rep.Body, err)
		return
	}
	for j, it := range items {
		o := out.Results[j]
		switch {
		case it["bad"] == true && (o.Stored || o.Code != "BAD_REQUEST" || o.Error == ""):
			r.Violate("batch-item", "item %v is answered %+v", it, o)
		case it["bad"] == nil && !o.Stored:
			r.Violate("batch-item", "item %v beside wrong ones is answered %+v", it, o)
		case it["bad"] == nil:
			good++
			rep, err := srv.Do("GET", ss[g.Intn(len(ss))].API, "/v1/cache/"+it["key"].(string), nil)
			if err != nil || string(rep.Body) != it["value"] {
				r.Violate("batch-item", "item %v was stored, and reads %d %q %v", it, rep.Status, rep.Body, err)
			}
		}
	}
	for _, k := range []string{"i1", "i2", "i3", "i4"} {
		if rep, err := srv.Do("GET", ss[g.Intn(len(ss))].API, "/v1/cache/"+k, nil); err != nil || rep.Status != 404 {
			r.Violate("batch-item", "the refused item %s reads %d %q %v", k, rep.Status, rep.Body, err)
		}
	}
	rep, err = raw(s.API, "POST", bp+"delete", []byte(`{"keys":["ok0","","ok1"]}`))
	var dels struct {
		Results []struct {
			Key, Code string
			Deleted   bool
		}
	}
	if err != nil || rep.Status != 200 || json.Unmarshal(rep.Body, &dels) != nil || len(dels.Results) != 3 || !dels.Results[0].Deleted || !dels.Results[2].Deleted || dels.Results[1].Deleted || dels.Results[1].Code != "BAD_REQUEST" {
		r.Violate("batch-item", "deleting ok0, nothing and ok1 is answered %d %q %v", rep.Status, rep.Body, err)
	}
	rep, err = raw(s.API, "POST", bp+"get", []byte(`{"keys":["ok0","","ok2"]}`))
	var gets struct {
		Results []struct {
			Key   string
			Found bool
		}
	}
	if err != nil || rep.Status != 200 || json.Unmarshal(rep.Body, &gets) != nil || len(gets.Results) != 3 || gets.Results[0].Found || gets.Results[1].Found || !gets.Results[2].Found {
		r.Violate("batch-item", "getting ok0 (deleted), nothing and ok2 is answered %d %q %v", rep.Status, rep.Body, err)
	}
	for _, n := range []string{"/healthz", "/v1/openapi.yaml"} {
		if rep, err := raw(s.API, "GET", n, nil); err != nil || rep.Status != 200 || len(rep.Body) == 0 {
			r.Violate("public", "GET %s is answered %d %.80q %v", n, rep.Status, rep.Body, err)
		}
	}
	for _, o := range ss {
		if cr := o.Crashed(); cr != "" {
			r.Violate("crash", "node %s died: %s", o.ID, cr)
		}
	}
	r.Add("batch_items_beside_wrong_ones", int64(good))
	r.Case(fmt.Sprintf("malformed n%d", len(ss)), true)
}

// concurrent: clients with keys of their own see histories of their own; on keys they share, only what somebody wrote there.
func concurrent(r *kit.Run) {
	if !r.Phase("concurrent") {
		return
	}
	for i := 0; i < r.N(2, 8) && r.Violations() == 0; i++ {
		n := 1 + 2*(i%2)
		ss := srv.Cluster(n, 2, map[string]string{"HYPERCACHE_HEARTBEAT": "5s"}, "")
		if ss == nil {
			r.Inconclusive("the servers did not come together")
			continue
		}
		var wg sync.WaitGroup
		for w := range 6 {
			g := r.Rand("concurrent", i, w)
			wg.Go(func() { history(r, ss, 2, g, true) })
		}
		var reads, seen atomic.Int64
		var distinct sync.Map
		for w := range 6 {
			g := r.Rand("shared", i, w)
			wg.Go(func() {
				for j := 0; j < r.N(250, 800) && r.Violations() == 0; j++ {
					k := "shared" + strconv.Itoa(g.Intn(5)) + strings.Repeat("x", g.Intn(3)*7)
					s := ss[g.Intn(n)]
					switch g.Intn(5) {
					case 0, 1:
						_, _ = srv.Do("PUT", s.API, "/v1/cache/"+k, sealed(g, k, w, j))
					case 2:
						b, _ := json.Marshal(map[string]any{"items": []map[string]any{{"key": k, "value": string(sealed(g, k, w, j))}}})
						_, _ = srv.Do("POST", s.API, "/v1/cache/batch/put", b)
					default:
						rep, err := srv.Do("GET", s.API, "/v1/cache/"+k, nil)
						if err != nil || rep.Status != 200 {
							continue
						}
						reads.Add(1)
						if !intact(k, rep.Body) {
							r.Violate("torn", "GET of %q via %s returns what nobody wrote there: %.120q", k, s.ID, rep.Body)
						}
						if _, was := distinct.LoadOrStore(string(rep.Body[len(rep.Body)-8:]), 1); !was {
							seen.Add(1)
						}
					}
				}
			})
		}
		wg.Wait()
		for _, s := range ss {
			if cr := s.Crashed(); cr != "" {
				r.Violate("crash", "node %s died: %s", s.ID, cr)
			}
		}
		srv.Stop(ss)
		r.Add("shared_reads", reads.Load())
		r.Add("shared_values_seen", seen.Load())
		r.Case(fmt.Sprintf("concurrent n%d", n), seen.Load() > 50)
	}
}

func sealed(g *rand.Rand, k string, w, j int) []byte {
	b := fmt.Appendf(nil, "%s|%d|%d|%s|", k, w, j, strings.Repeat(string(rune('a'+w)), g.Intn(4000)))
	return fmt.Appendf(b, "%08x", crc32.ChecksumIEEE(b))
}

func intact(k string, b []byte) bool {
	if len(b) < 8 || !bytes.HasPrefix(b, []byte(k+"|")) {
		return false
	}
	return fmt.Sprintf("%08x", crc32.ChecksumIEEE(b[:len(b)-8])) == string(b[len(b)-8:])
}

// shutdown: a node told to stop finishes what it acknowledges; what was acknowledged anywhere stays readable.
func shutdown(r *kit.Run) {
	if !r.Phase("shutdown") {
		return
	}
	for i := 0; i < r.N(2, 8) && r.Violations() == 0; i++ {
		g := r.Rand("shutdown", i)
		ss := srv.Cluster(3, 3, nil, "")
		if ss == nil {
			r.Inconclusive("the servers did not come together")
			continue
		}
		var mu sync.Mutex
		acked := map[string]string{}
		var stop atomic.Bool
		var wg sync.WaitGroup
		answers := map[string]int{}
		for w := range 6 {
			g := r.Rand("shutdown-w", i, w)
			wg.Go(func() {
				for j := 0; !stop.Load(); j++ {
					k, v, s := fmt.Sprintf("s%d-%d", w, j), fmt.Sprintf("v%d-%d-%d", i, w, j), ss[g.Intn(3)]
					rep, err := srv.Do("PUT", s.API, "/v1/cache/"+k, []byte(v))
					mu.Lock()
					switch {
					case err != nil:
						answers["no answer"]++
						if s != ss[0] {
							r.Violate("shutdown-peer", "while %s stops, a PUT via %s is not answered: %v %s", ss[0].ID, s.ID, err, s.Crashed())
						}
					case rep.Status == 200:
						acked[k] = v
						answers["stored"]++
					case rep.Status == 503:
						answers["draining"]++
						if code(rep) != "DRAINING" && s == ss[0] {
							r.Violate("shutdown-code", "a PUT via the stopping node is answered %d %s", rep.Status, rep.Body)
						}
					default:
						answers[strconv.Itoa(rep.Status)]++
					}
					mu.Unlock()
					time.Sleep(time.Millisecond)
				}
			})
		}
		time.Sleep(time.Duration(200+g.Intn(400)) * time.Millisecond)
		t := time.Now()
		done := ss[0].Stop(45 * time.Second)
		took := time.Since(t)
		_, xerr := ss[0].Exited()
		time.Sleep(200 * time.Millisecond)
		stop.Store(true)
		wg.Wait()
		if !done || xerr != nil {
			r.Violate("shutdown-exit", "the node told to stop had not ended well after %v: %v\n%.800s", took, xerr, ss[0].Log())
		}
		r.Max("shutdown_ms", int64(took.Milliseconds()))
		late := 0
		for k, v := range acked {
			for _, s := range ss[1:] {
				ok := false
				var rep srv.Reply
				var err error
				for t := time.Now(); time.Since(t) < 8*time.Second && !ok; time.Sleep(50 * time.Millisecond) {
					rep, err = srv.Do("GET", s.API, "/v1/cache/"+k, nil)
					if ok = err == nil && rep.Status == 200 && string(rep.Body) == v; ok {
						break
					}
					late++
				}
				if !ok {
					r.Violate("shutdown-lost", "%q was acknowledged around the stop of a node, %s reads %d %q %v", k, s.ID, rep.Status, rep.Body, err)
				}
			}
			if r.Violations() > 0 {
				break
			}
		}
		for _, s := range ss[1:] {
			if cr := s.Crashed(); cr != "" {
				r.Violate("crash", "node %s died: %s", s.ID, cr)
			}
		}
		srv.Stop(ss[1:])
		r.Add("shutdown_acked", int64(len(acked)))
		r.Add("shutdown_reread", int64(late))
		for a, n := range answers {
			r.Add("shutdown_"+strings.ReplaceAll(a, " ", "_"), int64(n))
		}
		r.Case("shutdown", len(acked) > 50)
	}
}
