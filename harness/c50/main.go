// C50: the client API of the server binary does what it says, for every key, value and lifetime.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/srv"
)

func main() {
	kit.Main("C50", "through any node of a cluster of server processes the client API stores, returns, describes and removes exactly what "+
		"was asked, byte for byte and for as long as asked, and refuses malformed requests item by item without effect", func(r *kit.Run) {
		histories(r)
		malformed(r)
		concurrent(r)
		shutdown(r)
	})
}

// one key as the client knows it.
type rec struct {
	val      []byte
	ttl      time.Duration
	sent     time.Time            // last write sent
	used     time.Time            // last answer to a write or read: an expiring copy may live this + ttl
	promised map[string]time.Time // node that described it -> until when it said it would be there
	there    bool
	unsure   bool
	version  json.Number // lowest the next write must exceed
	written  bool        // a write since version was seen
}

type client struct {
	r    *kit.Run
	g    *rand.Rand
	ss   []*srv.Server
	rf   int
	m    map[string]*rec
	log  []string
	heal int
	own  map[string][]string
}

func (c *client) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	c.log = append(c.log, s)
}

func (c *client) bad(sig, f string, a ...any) {
	l := c.log
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	c.r.ViolateWith(sig, map[string]any{"history": l, "nodes": len(c.ss), "rf": c.rf}, f, a...)
}

func (c *client) node() *srv.Server { return c.ss[c.g.Intn(len(c.ss))] }

// esc writes a key into a path, in one of the ways that mean the same.
func esc(g *rand.Rand, k string) string {
	if strings.EqualFold(k, "keys") || strings.EqualFold(k, "batch") || g.Intn(3) == 0 { // every byte escaped
		var b strings.Builder
		for i := range len(k) {
			fmt.Fprintf(&b, "%%%02X", k[i])
		}
		return b.String()
	}
	s := url.PathEscape(k)
	if g.Intn(3) == 0 {
		b := []byte(s)
		for i := 0; i+2 < len(b); i++ {
			if b[i] == '%' {
				copy(b[i+1:], bytes.ToLower(b[i+1:i+3]))
			}
		}
		s = string(b)
	}
	return s
}

var frags = []string{"a", "K", "/", "//", " ", "%", "%41", "%2F", "+", "?", "#", "é", "日本", ".", "..", "&", "=", ";", ":", "@", "\\", "\"", "'", "<", "\t", "~", "*", "[", "\x7f", "🙂", ",", "keys", "batch/get", "0"}

func anyKey(g *rand.Rand, single bool) string {
	switch g.Intn(12) {
	case 0:
		return []string{"keys", "KEYS", "batch", ".", "..", "a/b/c", "/", "%", "%zz", "null", "me", "0", "batch/get", "../owners", "é", "a+b", "a b"}[g.Intn(17)]
	case 1:
		return strings.Repeat("long-", 40+g.Intn(200))
	}
	var b strings.Builder
	for range 1 + g.Intn(6) {
		b.WriteString(frags[g.Intn(len(frags))])
	}
	if single && g.Intn(6) == 0 {
		b.WriteByte(byte(128 + g.Intn(128)))
	}
	if strings.TrimSpace(b.String()) == "" {
		b.WriteString("x")
	}
	return b.String()
}

func anyValue(g *rand.Rand) []byte {
	switch g.Intn(14) {
	case 0:
		return []byte{}
	case 1:
		return []byte([]string{"YWJj", "d29ybGQ=", "\"YWJj\"", "IllXSmoi", "null", "true", "12345678", "1e3", "{}", "[1,2]", `{"a":"b"}`, "\"q\"", "====", "abcd"}[g.Intn(14)])
	case 2:
		return []byte(base64.StdEncoding.EncodeToString([]byte("nested " + strconv.Itoa(g.Intn(1000)))))
	case 3:
		b := make([]byte, 1+g.Intn(3))
		g.Read(b)
		return b
	case 4:
		return bytes.Repeat([]byte{byte(g.Intn(256))}, 1+g.Intn(300))
	case 5:
		b := make([]byte, 20000+g.Intn(200000))
		g.Read(b)
		return b
	case 6, 7, 8:
		return []byte([]string{"<html>&amp;</html>", "line\r\nline\n", "\x00\x01\x02", "é日本🙂", "\xff\xfe", "a\u2028b", " ", "\n"}[g.Intn(8)])
	case 9: // as compressed things begin
		return append([]byte{0x1f, 0x8b, 8, 0}, byte(g.Intn(256)))
	}
	b := make([]byte, g.Intn(60))
	g.Read(b)
	return b
}

func anyTTL(g *rand.Rand, expiring bool) time.Duration {
	if !expiring {
		return []time.Duration{0, 0, 0, time.Hour, 90 * time.Minute, 24 * 365 * time.Hour, 2562047 * time.Hour}[g.Intn(7)]
	}
	return []time.Duration{0, 300 * time.Millisecond, 700 * time.Millisecond, 1200 * time.Millisecond, time.Hour, 500 * time.Microsecond, 1500 * time.Microsecond}[g.Intn(7)]
}

func ttlQuery(g *rand.Rand, d time.Duration) string {
	if d == 0 {
		return []string{"", "?ttl=", "?ttl=0", "?ttl=0s"}[g.Intn(4)]
	}
	switch {
	case g.Intn(3) == 0:
		return "?ttl=" + strconv.FormatInt(d.Microseconds(), 10) + "us"
	case g.Intn(2) == 0:
		return "?x=1&ttl=" + strconv.FormatFloat(d.Seconds(), 'f', -1, 64) + "s"
	}
	return "?ttl=" + d.String()
}

const slack = 25 * time.Millisecond

func (c *client) rec(k string) *rec {
	x := c.m[k]
	if x == nil {
		x = &rec{promised: map[string]time.Time{}}
		c.m[k] = x
	}
	return x
}

func (x *rec) put(v []byte, ttl time.Duration, sent, got time.Time) {
	x.val, x.ttl, x.sent, x.used, x.there, x.unsure, x.written = v, ttl, sent, got, true, false, true
	clear(x.promised)
}

// may says whether a read sent and answered at these times may, and must, find the key.
func (x *rec) may(node string, sent, got time.Time) (canFind, mustFind bool) {
	if x.unsure {
		return true, false
	}
	if !x.there {
		return false, false
	}
	if x.ttl == 0 {
		return true, true
	}
	must := got.Before(x.sent.Add(x.ttl - slack))
	if p, ok := x.promised[node]; ok && got.Before(p.Add(-slack)) {
		must = true
	}
	return sent.Before(x.used.Add(x.ttl + slack)), must
}

// read judges one found / not found; false if the caller should try again (a node may be behind for a moment on a busy machine).
func (c *client) read(k string, s *srv.Server, how string, found bool, val []byte, sent, got time.Time, last bool) bool {
	x := c.rec(k)
	can, must := x.may(s.ID, sent, got)
	c.note("%s %q via %s: found=%v %.60q", how, k, s.ID, found, val)
	switch {
	case found && !can:
		if !last && x.there == false {
			return false
		}
		c.bad("gone:"+how, "%s of %q via %s finds %.60q; removed or past its lifetime (%v) then", how, k, s.ID, val, x.ttl)
	case !found && must:
		if !last && x.ttl == 0 {
			return false
		}
		c.bad("lost:"+how, "%s of %q via %s: not found; it was stored %v before with a lifetime of %v", how, k, s.ID, got.Sub(x.sent), x.ttl)
	case found && !x.unsure && how != "HEAD" && !bytes.Equal(val, x.val):
		if !last {
			return false
		}
		c.bad("value:"+how, "%s of %q via %s returns %d bytes %.80q, stored were %d bytes %.80q", how, k, s.ID, len(val), val, len(x.val), x.val)
	}
	if found {
		x.used = got
	}
	return true
}

// again repeats a judged read until it is in order or for good wrong.
func (c *client) again(f func(last bool) bool) {
	for t := time.Now(); ; time.Sleep(50 * time.Millisecond) {
		late := time.Since(t) > 8*time.Second
		if f(late) || late {
			return
		}
		c.heal++
	}
}

func num(v any) (int64, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, v == nil
	}
	i, err := n.Int64()
	return i, err == nil
}

// described judges the metadata that goes with a found key.
func (c *client) described(how, k string, s *srv.Server, ttl int64, expires, version, origin, updated string, owners []string, sent, got time.Time) {
	x := c.rec(k)
	if x.unsure {
		return
	}
	if x.ttl == 0 && (ttl != 0 || expires != "") {
		c.bad("meta-ttl:"+how, "%s of %q says %d ms, expires %q: it was stored without a lifetime", how, k, ttl, expires)
	}
	if x.ttl > 0 && (ttl < 0 || ttl > x.ttl.Milliseconds()) {
		c.bad("meta-ttl:"+how, "%s of %q says %d ms remain of a lifetime of %v", how, k, ttl, x.ttl)
	}
	if x.ttl > 0 {
		if at, err := time.Parse(time.RFC3339, expires); ttl > 0 && (err != nil || at.Before(sent.Add(time.Duration(ttl)*time.Millisecond-1100*time.Millisecond)) || at.After(got.Add(time.Duration(ttl+100)*time.Millisecond))) {
			c.bad("meta-expires:"+how, "%s of %q says it expires at %q, and in %d ms (now %v)", how, k, expires, ttl, got.UTC())
		}
		x.promised[s.ID] = sent.Add(time.Duration(ttl) * time.Millisecond)
		c.r.Add("lifetimes_described", int64(1))
	}
	v, err := strconv.ParseUint(version, 10, 64)
	if err != nil || v == 0 {
		c.bad("meta-version:"+how, "%s of %q says version %q", how, k, version)
	}
	if old, _ := strconv.ParseUint(string(x.version), 10, 64); x.version != "" && (v < old || x.written && v == old || !x.written && v != old) {
		c.bad("meta-version:"+how, "%s of %q says version %d; it was %d before (written since: %v)", how, k, v, old, x.written)
	}
	x.version, x.written = json.Number(version), false
	if !slices.ContainsFunc(c.ss, func(o *srv.Server) bool { return o.ID == origin }) {
		c.bad("meta-origin:"+how, "%s of %q says origin %q", how, k, origin)
	}
	if at, err := time.Parse(time.RFC3339, updated); err != nil || at.Before(x.sent.Truncate(time.Second)) || at.After(got) {
		c.bad("meta-updated:"+how, "%s of %q says last updated %q, written at %v", how, k, updated, x.sent.UTC())
	}
	c.owners(how, k, owners)
}

func (c *client) owners(how, k string, o []string) {
	want := min(c.rf, len(c.ss))
	if len(o) != want || len(slices.Compact(slices.Sorted(slices.Values(o)))) != want {
		c.bad("owners:"+how, "%s of %q names the owners %v: %d nodes, %d copies", how, k, o, len(c.ss), c.rf)
		return
	}
	if old, ok := c.own[k]; ok && !slices.Equal(old, o) {
		c.bad("owners:"+how, "%s of %q names the owners %v, before %v; no node came or went", how, k, o, old)
	}
	c.own[k] = o
}

func strs(v any) []string {
	l, _ := v.([]any)
	var out []string
	for _, e := range l {
		s, _ := e.(string)
		out = append(out, s)
	}
	return out
}

func str(v any) string { s, _ := v.(string); return s }

// code of an error answer.
func code(rep srv.Reply) string { return str(rep.JSON()["code"]) }

func (c *client) failed(what string, s *srv.Server, rep srv.Reply, err error) {
	if cr := s.Crashed(); cr != "" {
		c.bad("crash", "%s: node %s died: %s", what, s.ID, cr)
		return
	}
	if err != nil || rep.Status == 500 && strings.Contains(string(rep.Body), "quorum") || rep.Status == 503 {
		c.r.Add("unsure", int64(1))
		return
	}
	c.bad("status:"+strings.Fields(what)[0], "%s via %s answers %d %.200s", what, s.ID, rep.Status, rep.Body)
}

func (c *client) put(k string, v []byte, ttl time.Duration) {
	s, x := c.node(), c.rec(k)
	p := "/v1/cache/" + esc(c.g, k) + ttlQuery(c.g, ttl)
	c.note("PUT %s (%q) = %.60q ttl %v via %s", p, k, v, ttl, s.ID)
	sent := time.Now()
	rep, err := srv.Do("PUT", s.API, p, v, "Content-Type", []string{"", "text/plain", "application/json", "application/x-www-form-urlencoded", "application/octet-stream"}[c.g.Intn(5)])
	got := time.Now()
	if err != nil || rep.Status != 200 {
		x.unsure = true
		c.failed("PUT "+k, s, rep, err)
		return
	}
	x.put(v, ttl, sent, got)
	m := rep.JSON()
	n, _ := num(m["bytes"])
	t, _ := num(m["ttl_ms"])
	if utf8.ValidString(k) && str(m["key"]) != k || m["stored"] != true || n != int64(len(v)) || t != ttl.Milliseconds() || str(m["node"]) != s.ID {
		c.bad("put-answer", "PUT of %q (%d bytes, ttl %v) via %s answers %s", k, len(v), ttl, s.ID, rep.Body)
	}
	c.owners("PUT", k, strs(m["owners"]))
}

func (c *client) get(k string) {
	s, p := c.node(), "/v1/cache/"+esc(c.g, k)
	switch c.g.Intn(3) {
	case 0:
		accept := []string{"", "*/*", "text/plain", "application/octet-stream"}[c.g.Intn(4)]
		c.again(func(last bool) bool {
			sent := time.Now()
			rep, err := srv.Do("GET", s.API, p, nil, "Accept", accept)
			got := time.Now()
			if err != nil || rep.Status != 200 && rep.Status != 404 {
				c.failed("GET "+k, s, rep, err)
				return true
			}
			if rep.Status == 404 && code(rep) != "NOT_FOUND" {
				c.bad("code:GET", "GET of a missing key %q answers %s", k, rep.Body)
			}
			return c.read(k, s, "GET", rep.Status == 200, rep.Body, sent, got, last)
		})
	case 1:
		accept := []string{"application/json", "text/html, application/json;q=0.9"}[c.g.Intn(2)]
		c.again(func(last bool) bool {
			sent := time.Now()
			rep, err := srv.Do("GET", s.API, p, nil, "Accept", accept)
			got := time.Now()
			if err != nil || rep.Status != 200 && rep.Status != 404 {
				c.failed("GETJSON "+k, s, rep, err)
				return true
			}
			m := rep.JSON()
			val, derr := base64.StdEncoding.DecodeString(str(m["value"]))
			if rep.Status == 200 && (derr != nil || str(m["value_encoding"]) != "base64" || utf8.ValidString(k) && str(m["key"]) != k || str(m["node"]) != s.ID) {
				c.bad("envelope", "GET of %q as JSON via %s answers %.300s", k, s.ID, rep.Body)
			}
			if !c.read(k, s, "GETJSON", rep.Status == 200, val, sent, got, last) {
				return false
			}
			if rep.Status == 200 {
				t, _ := num(m["ttl_ms"])
				ver, _ := m["version"].(json.Number)
				c.described("GETJSON", k, s, t, str(m["expires_at"]), string(ver), str(m["origin"]), str(m["last_updated"]), strs(m["owners"]), sent, got)
			}
			return true
		})
	case 2:
		c.again(func(last bool) bool {
			sent := time.Now()
			rep, err := srv.Do("HEAD", s.API, p, nil)
			got := time.Now()
			if err != nil || rep.Status != 200 && rep.Status != 404 {
				c.failed("HEAD "+k, s, rep, err)
				return true
			}
			if !c.read(k, s, "HEAD", rep.Status == 200, nil, sent, got, last) {
				return false
			}
			if rep.Status == 200 {
				h := rep.Header
				t, _ := strconv.ParseInt(h.Get("X-Cache-Ttl-Ms"), 10, 64)
				c.described("HEAD", k, s, t, h.Get("X-Cache-Expires-At"), h.Get("X-Cache-Version"), h.Get("X-Cache-Origin"), h.Get("X-Cache-Last-Updated"), strings.Split(h.Get("X-Cache-Owners"), ","), sent, got)
				if h.Get("X-Cache-Node") != s.ID || len(rep.Body) > 0 {
					c.bad("head", "HEAD of %q via %s: %v %q", k, s.ID, h, rep.Body)
				}
			}
			return true
		})
	}
}

func (c *client) del(k string) {
	s, x := c.node(), c.rec(k)
	c.note("DELETE %q via %s", k, s.ID)
	rep, err := srv.Do("DELETE", s.API, "/v1/cache/"+esc(c.g, k), nil)
	if err != nil || rep.Status != 200 {
		x.unsure = true
		c.failed("DELETE "+k, s, rep, err)
		return
	}
	x.there, x.unsure, x.written = false, false, true
	m := rep.JSON()
	if utf8.ValidString(k) && str(m["key"]) != k || m["deleted"] != true || str(m["node"]) != s.ID {
		c.bad("delete-answer", "DELETE of %q via %s answers %s", k, s.ID, rep.Body)
	}
	c.owners("DELETE", k, strs(m["owners"]))
}

func (c *client) ownersGet(k string) {
	s := c.node()
	rep, err := srv.Do("GET", s.API, "/v1/owners/"+esc(c.g, k), nil)
	if err != nil || rep.Status != 200 {
		c.failed("OWNERS "+k, s, rep, err)
		return
	}
	m := rep.JSON()
	if utf8.ValidString(k) && str(m["key"]) != k || str(m["node"]) != s.ID {
		c.bad("owners-answer", "owners of %q via %s: %s", k, s.ID, rep.Body)
	}
	c.owners("OWNERS", k, strs(m["owners"]))
}

// body posts a JSON document, sometimes written in an unusual but equal way.
func (c *client) post(s *srv.Server, op string, doc any) (srv.Reply, error) {
	b, _ := json.Marshal(doc)
	switch c.g.Intn(4) {
	case 0:
		var out bytes.Buffer
		_ = json.Indent(&out, b, " ", "\t")
		b = out.Bytes()
	case 1: // every non-ASCII character escaped
		var out bytes.Buffer
		for _, q := range string(b) {
			if q >= 128 && q < 0x10000 {
				fmt.Fprintf(&out, "\\u%04x", q)
			} else {
				out.WriteRune(q)
			}
		}
		b = out.Bytes()
	}
	return srv.Do("POST", s.API, "/v1/cache/batch/"+op, b, "Content-Type", []string{"application/json", "", "text/plain"}[c.g.Intn(3)])
}

func (c *client) results(op string, s *srv.Server, rep srv.Reply, err error, keys []string) []map[string]any {
	if err != nil || rep.Status != 200 {
		for _, k := range keys {
			if op != "get" {
				c.rec(k).unsure = true
			}
		}
		c.failed("batch-"+op, s, rep, err)
		return nil
	}
	var out []map[string]any
	m := rep.JSON()
	l, _ := m["results"].([]any)
	for i, e := range l {
		o, _ := e.(map[string]any)
		if i < len(keys) && str(o["key"]) != keys[i] {
			c.bad("batch-order:"+op, "batch %s of %q: result %d is for %q", op, keys, i, o["key"])
			return nil
		}
		out = append(out, o)
	}
	if len(out) != len(keys) || str(m["node"]) != s.ID {
		c.bad("batch-count:"+op, "batch %s of %d keys via %s: %d results, node %v: %.300s", op, len(keys), s.ID, len(out), m["node"], rep.Body)
		return nil
	}
	return out
}

func (c *client) batchPut(keys []string, expiring bool) {
	s := c.node()
	var items []map[string]any
	var want []func(o map[string]any, sent, got time.Time)
	for _, k := range keys {
		v, ttl, x := anyValue(c.g), anyTTL(c.g, expiring).Truncate(time.Millisecond), c.rec(k)
		it := map[string]any{"key": k}
		wrong := ""
		switch e := c.g.Intn(10); {
		case e == 0:
			it["value"], it["value_encoding"], wrong = "not*base64", "base64", "value"
		case e == 1:
			it["value"], it["ttl_ms"], wrong = "v", -1-c.g.Int63n(1000), "ttl"
		case e == 2 && c.g.Intn(2) == 0:
			it["value"], it["ttl_ms"], wrong = "v", []int64{1 << 62, -1 << 63, 9223372036854776}[c.g.Intn(3)], "ttl"
		case utf8.Valid(v) && c.g.Intn(2) == 0:
			it["value"] = string(v)
			if c.g.Intn(3) == 0 {
				it["value_encoding"] = []string{"", "string"}[c.g.Intn(2)]
			}
		default:
			it["value"], it["value_encoding"] = base64.StdEncoding.EncodeToString(v), "base64"
		}
		if wrong == "" && (ttl > 0 || c.g.Intn(3) == 0) {
			it["ttl_ms"] = ttl.Milliseconds()
		}
		items = append(items, it)
		want = append(want, func(o map[string]any, sent, got time.Time) {
			if wrong != "" {
				if o["stored"] == true || str(o["code"]) != "BAD_REQUEST" || str(o["error"]) == "" {
					c.bad("batch-accepts:"+wrong, "batch put accepts a bad %s (%v): %v", wrong, it, o)
					x.unsure = true
				}
				return
			}
			if o["stored"] != true {
				x.unsure = true
				if !strings.Contains(str(o["error"]), "quorum") && str(o["code"]) == "BAD_REQUEST" {
					c.bad("batch-refuses", "batch put refuses %.200v: %v", it, o)
				}
				return
			}
			x.put(v, ttl, sent, got)
			if n, _ := num(o["bytes"]); n != int64(len(v)) {
				c.bad("batch-bytes", "batch put of %d bytes for %q answers %v", len(v), k, o)
			}
			c.owners("BATCHPUT", k, strs(o["owners"]))
		})
	}
	c.note("batch put %.300v via %s", items, s.ID)
	sent := time.Now()
	rep, err := c.post(s, "put", map[string]any{"items": items})
	got := time.Now()
	for i, o := range c.results("put", s, rep, err, keys) {
		want[i](o, sent, got)
	}
}

func (c *client) batchGet(keys []string) {
	s := c.node()
	c.again(func(last bool) bool {
		sent := time.Now()
		rep, err := c.post(s, "get", map[string]any{"keys": keys})
		got := time.Now()
		ok := true
		for i, o := range c.results("get", s, rep, err, keys) {
			k := keys[i]
			val, derr := base64.StdEncoding.DecodeString(str(o["value"]))
			found := o["found"] == true
			if found && (derr != nil || str(o["value_encoding"]) != "base64") || !found && len(o) != 2 {
				c.bad("batch-get", "batch get of %q: %.300v", k, o)
			}
			if !c.read(k, s, "BATCHGET", found, val, sent, got, last) {
				ok = false
				continue
			}
			if found {
				t, _ := num(o["ttl_ms"])
				ver, _ := o["version"].(json.Number)
				c.described("BATCHGET", k, s, t, str(o["expires_at"]), string(ver), str(o["origin"]), str(o["last_updated"]), strs(o["owners"]), sent, got)
			}
		}
		return ok
	})
}

func (c *client) batchDelete(keys []string) {
	s := c.node()
	c.note("batch delete %q via %s", keys, s.ID)
	rep, err := c.post(s, "delete", map[string]any{"keys": keys})
	for i, o := range c.results("delete", s, rep, err, keys) {
		x := c.rec(keys[i])
		if o["deleted"] != true {
			x.unsure = true
			if str(o["code"]) == "BAD_REQUEST" {
				c.bad("batch-delete", "batch delete of %q: %v", keys[i], o)
			}
			continue
		}
		x.there, x.unsure, x.written = false, false, true
	}
}

func pick(g *rand.Rand, keys []string, n int, repeat bool) []string {
	p := slices.Clone(keys)
	g.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	p = p[:min(n, len(p))]
	if repeat && len(p) > 1 {
		p = append(p, p[0])
	}
	return p
}

func histories(r *kit.Run) {
	if !r.Phase("histories") {
		return
	}
	shapes := [][2]int{{1, 1}, {3, 2}, {2, 1}, {3, 3}, {4, 2}, {3, 1}, {2, 3}}
	for i := 0; i < r.N(4, 28) && r.Violations() == 0; i++ {
		sh := shapes[i%len(shapes)]
		ss := srv.Cluster(sh[0], sh[1], map[string]string{"HYPERCACHE_HEARTBEAT": "5s", "HYPERCACHE_HINT_REPLAY": "100ms"}, "")
		if ss == nil {
			r.Inconclusive("the servers did not come together")
			continue
		}
		for h := 0; h < r.N(3, 8) && r.Violations() == 0; h++ {
			history(r, ss, sh[1], r.Rand("history", i, h), false)
		}
		for _, s := range ss {
			if cr := s.Crashed(); cr != "" {
				r.Violate("crash", "node %s died: %s", s.ID, cr)
			}
		}
		srv.Stop(ss)
	}
}

func history(r *kit.Run, ss []*srv.Server, rf int, g *rand.Rand, shared bool) {
	c := &client{r: r, g: g, ss: ss, rf: rf, m: map[string]*rec{}, own: map[string][]string{}}
	tag := fmt.Sprintf("%x:", g.Intn(1<<24)) // the servers keep what earlier histories left
	var keys, uni []string
	for range 14 {
		k := anyKey(g, true)
		if g.Intn(3) > 0 {
			k = tag + k
		} else {
			k += tag
		}
		if !slices.Contains(keys, k) {
			keys = append(keys, k)
			if utf8.ValidString(k) {
				uni = append(uni, k)
			}
		}
	}
	for _, k := range []string{"keys", "batch", "."} { // with what is left of them unknown
		if !shared && g.Intn(2) == 0 {
			keys = append(keys, k)
			c.rec(k).unsure = true
		}
	}
	expiring := g.Intn(2) == 0
	ops := map[string]int{}
	for i := 0; i < r.N(130, 300) && r.Violations() == 0; i++ {
		k := keys[g.Intn(len(keys))]
		switch o := g.Intn(20); {
		case o < 6:
			ops["put"]++
			c.put(k, anyValue(g), anyTTL(g, expiring))
		case o < 12:
			ops["get"]++
			c.get(k)
		case o < 14:
			ops["del"]++
			c.del(k)
		case o < 15:
			ops["owners"]++
			c.ownersGet(k)
		case o < 17:
			ops["bput"]++
			c.batchPut(pick(g, uni, g.Intn(8), false), expiring)
		case o < 19:
			ops["bget"]++
			c.batchGet(pick(g, uni, g.Intn(9), g.Intn(3) == 0))
		default:
			ops["bdel"]++
			c.batchDelete(pick(g, uni, g.Intn(4), g.Intn(3) == 0))
		}
		if expiring && g.Intn(6) == 0 {
			time.Sleep(time.Duration(g.Intn(500)) * time.Millisecond)
		}
	}
	for _, k := range keys { // everything once more, through every node
		for _, s := range ss {
			c.finalGet(k, s)
		}
	}
	for o, n := range ops {
		r.Add("op_"+o, int64(n))
	}
	r.Add("healed", int64(c.heal))
	r.Add("keys", int64(len(keys)))
	r.Case(fmt.Sprintf("n%d rf%d expiring=%v", len(ss), rf, expiring), ops["put"] > 10 && ops["get"] > 10)
}

func (c *client) finalGet(k string, s *srv.Server) {
	c.again(func(last bool) bool {
		sent := time.Now()
		rep, err := srv.Do("GET", s.API, "/v1/cache/"+esc(c.g, k), nil)
		got := time.Now()
		if err != nil || rep.Status != 200 && rep.Status != 404 {
			c.failed("GET "+k, s, rep, err)
			return true
		}
		return c.read(k, s, "FINAL", rep.Status == 200, rep.Body, sent, got, last)
	})
}
