// C05: client commands carry keys, values and TTLs unchanged and decode replies exactly.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/hyp3rd/hypercache/internal/vh/farm"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

func main() {
	kit.Main("C05", "random keys (arbitrary bytes, separators, percent signs, unicode), values (empty to 300 KB, binary), lifetimes, batch sizes and per-item outcomes for every command; "+
		"an independent reference server decodes each request from the wire and its scripted reply is compared with what the caller got; "+
		"non-trivial = key or value outside [a-z0-9], or a batch of two or more", run)
}

func run(r *kit.Run) {
	f := farm.New(1)
	defer f.Close()
	c, err := client.New([]string{f.URL(0)})
	if err != nil {
		panic(err)
	}
	for _, ph := range []struct {
		name string
		n    int
		fn   func(*kit.Run, *farm.Farm, *client.Client, *rand.Rand, int)
	}{
		{"set", r.N(2500, 60000), set}, {"get", r.N(2000, 50000), get}, {"item", r.N(2000, 50000), item}, {"delete", r.N(800, 20000), del},
		{"batch-set", r.N(1200, 30000), batchSet}, {"batch-get", r.N(1200, 30000), batchGet}, {"batch-delete", r.N(800, 20000), batchDelete},
		{"identity", r.N(600, 15000), identity}, {"retry", r.N(300, 6000), retry},
	} {
		if r.Phase(ph.name) {
			for i := 0; i < ph.n; i++ {
				ph.fn(r, f, c, r.Rand(ph.name, i), i)
			}
		}
	}
	if r.Phase("parallel") {
		for i := 0; i < r.N(15, 300); i++ {
			parallel(r, f, c, r.Rand("parallel", i), i)
		}
	}
}

var alphabet = []string{"a", "b", "Z", "0", "9", "-", "_", ".", "~", "/", "\\", "?", "#", "&", "=", "+", " ", "%", "%2F", "%00", "%zz", ":", ";", ",", "@", "!", "$", "'", "(", ")", "*", "[", "]", "{", "}", "|", "^", "`", "\"", "<", ">",
	"é", "世界", "🙂", "\u200b", "\u00a0", "\t", "\n", "\r", "\x00", "\x7f", "ttl=1s", "..", "//"}

// key: valid UTF-8 unless raw is set.
func key(rng *rand.Rand, raw bool) string {
	var b strings.Builder
	n := 1 + rng.Intn(12)
	if rng.Intn(20) == 0 {
		n = 100 + rng.Intn(1500)
	}
	for i := 0; i < n; i++ {
		if raw && rng.Intn(10) == 0 {
			b.WriteByte(byte(rng.Intn(256)))
			continue
		}
		b.WriteString(alphabet[rng.Intn(len(alphabet))])
	}
	if b.Len() > 3000 {
		return b.String()[:1000]
	}
	return b.String()
}

func value(rng *rand.Rand) []byte {
	n := 0
	switch rng.Intn(12) {
	case 0:
	case 1:
		n = 1
	case 2:
		n = 20000 + rng.Intn(280000)
	default:
		n = rng.Intn(600)
	}
	b := make([]byte, n)
	rng.Read(b)
	if rng.Intn(4) == 0 {
		for i := range b {
			b[i] = "{\"a\":0}\r\n"[i%9]
		}
	}
	return b
}

var ttls = []time.Duration{0, -1, -time.Second, 1, 999, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 1500 * time.Microsecond, 1999999, 250 * time.Millisecond, time.Second, 1001 * time.Millisecond,
	time.Minute, 90 * time.Second, time.Hour, 36*time.Hour + 7*time.Nanosecond, 365 * 24 * time.Hour, 1<<63 - 1}

func ttl(rng *rand.Rand) time.Duration {
	if rng.Intn(2) == 0 {
		return ttls[rng.Intn(len(ttls))]
	}
	return time.Duration(rng.Int63n(int64(48 * time.Hour)))
}

func plain(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// one is the single request on record.
func one(r *kit.Run, f *farm.Farm, what string) (farm.Req, bool) {
	log := f.Log()
	if len(log) != 1 {
		r.Violate("request-count", "%s made %d requests to one healthy endpoint", what, len(log))
		return farm.Req{}, false
	}
	r.Add("requests_decoded", 1)
	return log[0], true
}

// wireKey decodes the key from the request target as any HTTP server would.
func wireKey(q farm.Req) (string, url.Values, error) {
	path, query, _ := strings.Cut(q.URI, "?")
	enc, ok := strings.CutPrefix(path, "/v1/cache/")
	if !ok || strings.Contains(enc, "/") {
		return "", nil, fmt.Errorf("target %q is not one key below /v1/cache/", q.URI)
	}
	k, err := url.PathUnescape(enc)
	if err != nil {
		return "", nil, err
	}
	v, err := url.ParseQuery(query)
	return k, v, err
}

func checkKey(r *kit.Run, cmd string, q farm.Req, method, want string) url.Values {
	k, v, err := wireKey(q)
	if err != nil || k != want || q.Method != method {
		r.Violate("key-altered:"+cmd, "%s(%q) arrived as %s %q: key %q %v", cmd, want, q.Method, q.URI, k, err)
	}
	return v
}

func set(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	k, v, d := key(rng, true), value(rng), ttl(rng)
	f.Script(farm.OK)
	vin := bytes.Clone(v)
	err := c.Set(context.Background(), k, v, d)
	q, ok := one(r, f, "Set")
	if !ok {
		return
	}
	if err != nil {
		r.Violate("set-failed", "Set(%q): %v", k, err)
	}
	vals := checkKey(r, "Set", q, "PUT", k)
	if !bytes.Equal(q.Body, vin) || !bytes.Equal(v, vin) {
		r.Violate("value-altered:Set", "Set of %d bytes arrived as %d bytes", len(vin), len(q.Body))
	}
	for name := range vals {
		if name != "ttl" {
			r.Violate("extra-parameter", "Set(%q) sent parameter %q", k, name)
		}
	}
	got := vals.Get("ttl")
	if d <= 0 {
		if x, e := time.ParseDuration(got); got != "" && (e != nil || x > 0) {
			r.Violate("ttl-altered:Set", "a non-expiring Set sent ttl=%q", got)
		}
	} else if x, e := time.ParseDuration(got); e != nil || x != d {
		r.Violate("ttl-altered:Set", "ttl %v arrived as %q", d, got)
	}
	r.Case(fmt.Sprint("set", k, len(v), d), !plain(k) || len(v) == 0 || d > 0)
}

func get(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	k, v := key(rng, true), value(rng)
	miss := rng.Intn(5) == 0
	f.Script(func(farm.Req) farm.Reply {
		if miss {
			return farm.Reply{Status: 404, Body: []byte(`{"code":"NOT_FOUND","error":"key not found"}`)}
		}
		return farm.Reply{Status: 200, Body: v, Header: map[string]string{"Content-Type": "application/octet-stream"}}
	})
	got, err := c.Get(context.Background(), k)
	q, ok := one(r, f, "Get")
	if !ok {
		return
	}
	checkKey(r, "Get", q, "GET", k)
	switch {
	case miss && (got != nil || !errors.Is(err, client.ErrNotFound)):
		r.Violate("miss-hidden:Get", "Get of a missing key: %d bytes, %v", len(got), err)
	case !miss && (err != nil || !bytes.Equal(got, v)):
		r.Violate("value-altered:Get", "Get: %d bytes served, %d returned, %v", len(v), len(got), err)
	}
	r.Case(fmt.Sprint("get", k, len(v), miss), !plain(k))
}

func rndItem(rng *rand.Rand, k string) client.Item {
	it := client.Item{Key: k, Value: value(rng), Version: rng.Uint64(), Origin: key(rng, false), Node: key(rng, false)}
	if rng.Intn(2) == 0 {
		it.TTLMs = rng.Int63()
		it.ExpiresAt = time.Unix(rng.Int63n(4e9), rng.Int63n(1e9)).UTC().Format(time.RFC3339Nano)
		it.LastUpdated = time.Unix(rng.Int63n(4e9), 0).UTC().Format(time.RFC3339)
	}
	for j := rng.Intn(4); j > 0; j-- {
		it.Owners = append(it.Owners, key(rng, false))
	}
	return it
}

func wire(it client.Item) map[string]any {
	m := map[string]any{"key": it.Key, "value": base64.StdEncoding.EncodeToString(it.Value), "value_encoding": "base64", "version": it.Version, "node": it.Node, "owners": it.Owners}
	if it.TTLMs != 0 {
		m["ttl_ms"] = it.TTLMs
	}
	for n, v := range map[string]string{"expires_at": it.ExpiresAt, "origin": it.Origin, "last_updated": it.LastUpdated} {
		if v != "" {
			m[n] = v
		}
	}
	return m
}

func same(a, b client.Item) bool {
	if !bytes.Equal(a.Value, b.Value) || len(a.Owners) != len(b.Owners) {
		return false
	}
	a.Value, b.Value = nil, nil
	if len(a.Owners) == 0 {
		a.Owners, b.Owners = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

func jsonReply(v any) farm.Reply {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return farm.Reply{Status: 200, Body: b, Header: map[string]string{"Content-Type": "application/json"}}
}

func item(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	k := key(rng, false)
	want := rndItem(rng, k)
	miss := rng.Intn(6) == 0
	f.Script(func(farm.Req) farm.Reply {
		if miss {
			return farm.Reply{Status: 404, Body: []byte(`{"code":"NOT_FOUND","error":"key not found"}`)}
		}
		return jsonReply(wire(want))
	})
	got, err := c.GetItem(context.Background(), k)
	q, ok := one(r, f, "GetItem")
	if !ok {
		return
	}
	checkKey(r, "GetItem", q, "GET", k)
	if !strings.Contains(q.Header.Get("Accept"), "application/json") {
		r.Violate("accept-missing", "GetItem does not ask for the JSON envelope (Accept %q)", q.Header.Get("Accept"))
	}
	switch {
	case miss && (got != nil || !errors.Is(err, client.ErrNotFound)):
		r.Violate("miss-hidden:GetItem", "GetItem of a missing key: %v, %v", got, err)
	case !miss && (err != nil || got == nil || !same(*got, want)):
		r.ViolateWith("item-altered:GetItem", map[string]any{"served": want, "got": got}, "GetItem(%q) differs from the envelope served: %v", k, err)
	}
	r.Case(fmt.Sprint("item", k, want.Version), true)
	if i < 2 {
		r.Sample("item", fmt.Sprintf("key %q version %d value %d bytes owners %q", k, want.Version, len(want.Value), want.Owners))
	}
}

func del(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	k := key(rng, true)
	st := []int{200, 204}[rng.Intn(2)]
	f.Script(func(farm.Req) farm.Reply { return farm.Reply{Status: st} })
	err := c.Delete(context.Background(), k)
	if q, ok := one(r, f, "Delete"); ok {
		checkKey(r, "Delete", q, "DELETE", k)
		if err != nil || len(q.Body) != 0 {
			r.Violate("delete", "Delete(%q) answered %d: %v (body %d bytes)", k, st, err, len(q.Body))
		}
	}
	r.Case(fmt.Sprint("del", k, st), !plain(k))
}

// batchKeys are distinct half of the time; sometimes one is not valid UTF-8.
func batchKeys(rng *rand.Rand) ([]string, bool) {
	n := rng.Intn(9)
	if rng.Intn(12) == 0 {
		n = 100 + rng.Intn(200)
	}
	ks := make([]string, n)
	valid := true
	for i := range ks {
		ks[i] = key(rng, false)
		if i > 0 && rng.Intn(8) == 0 {
			ks[i] = ks[rng.Intn(i)]
		}
		if rng.Intn(60) == 0 {
			ks[i] += "\xff\xfe"
		}
		valid = valid && utf8.ValidString(ks[i])
	}
	return ks, valid
}

// refused: a batch whose keys JSON cannot carry must fail without sending anything.
func refused(r *kit.Run, f *farm.Farm, cmd string, err error) {
	if err == nil || len(f.Log()) != 0 {
		r.Violate("batch-key-altered:"+cmd, "%s with a key that is not UTF-8: err %v, %d requests", cmd, err, len(f.Log()))
	}
	r.Add("unencodable_batches", 1)
}

var codes = []struct {
	code   string
	status int
	is     error
}{{"BAD_REQUEST", 400, client.ErrBadRequest}, {"DRAINING", 503, client.ErrDraining}, {"INTERNAL", 500, client.ErrInternal}, {"SOMETHING_NEW", 0, nil}}

func checkItemErr(r *kit.Run, cmd string, idx int, want int, msg string, got *client.StatusError) {
	if want < 0 {
		if got != nil {
			r.Violate("batch-swapped:"+cmd, "%s item %d succeeded but carries error %v", cmd, idx, got)
		}
		return
	}
	w := codes[want]
	if got == nil {
		r.Violate("batch-swapped:"+cmd, "%s item %d failed with %s but carries no error", cmd, idx, w.code)
		return
	}
	if got.Code != w.code || got.Message != msg || (w.is != nil && !errors.Is(got, w.is)) {
		r.Violate("batch-error:"+cmd, "%s item %d failed with %s %q, reported %+v", cmd, idx, w.code, msg, *got)
	}
	for j, o := range codes {
		if j != want && o.is != nil && errors.Is(got, o.is) {
			r.Violate("batch-error:"+cmd, "%s item %d failed with %s but matches %v", cmd, idx, w.code, o.is)
		}
	}
	r.Seen("item_error", w.code)
}

func batchSet(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	ks, valid := batchKeys(rng)
	items := make([]client.BatchSetItem, len(ks))
	outcome := make([]int, len(ks))
	owners := make([][]string, len(ks))
	for j, k := range ks {
		v := value(rng)
		if len(v) > 5000 {
			v = v[:5000]
		}
		items[j] = client.BatchSetItem{Key: k, Value: v, TTL: ttl(rng)}
		outcome[j] = -1
		if rng.Intn(3) == 0 {
			outcome[j] = rng.Intn(len(codes))
		} else if rng.Intn(2) == 0 {
			owners[j] = []string{key(rng, false)}
		}
	}
	f.Script(func(q farm.Req) farm.Reply {
		res := []any{}
		for j, k := range ks {
			m := map[string]any{"key": k, "stored": outcome[j] < 0}
			if outcome[j] < 0 {
				m["bytes"] = len(items[j].Value)
				m["owners"] = owners[j]
			} else {
				m["error"], m["code"] = fmt.Sprint("why ", j), codes[outcome[j]].code
			}
			res = append(res, m)
		}
		return jsonReply(map[string]any{"results": res, "node": "n"})
	})
	got, err := c.BatchSet(context.Background(), items)
	if !valid {
		refused(r, f, "BatchSet", err)
		return
	}
	if len(ks) == 0 {
		if len(got) != 0 || err != nil || len(f.Log()) != 0 {
			r.Violate("empty-batch", "empty BatchSet: %v %v, %d requests", got, err, len(f.Log()))
		}
		return
	}
	q, ok := one(r, f, "BatchSet")
	if !ok {
		return
	}
	var body struct {
		Items []struct {
			Key, Value string
			Encoding   string `json:"value_encoding"`
			TTL        *int64 `json:"ttl_ms"`
		}
	}
	if e := json.Unmarshal(q.Body, &body); e != nil || q.Method != "POST" || q.URI != "/v1/cache/batch/put" || len(body.Items) != len(items) {
		r.Violate("batch-request:BatchSet", "%s %s with %d items for %d: %v", q.Method, q.URI, len(body.Items), len(items), e)
		return
	}
	for j, w := range body.Items {
		raw := []byte(w.Value)
		var e error
		if w.Encoding == "base64" {
			raw, e = base64.StdEncoding.DecodeString(w.Value)
		}
		if w.Key != ks[j] || e != nil || !bytes.Equal(raw, items[j].Value) {
			r.Violate("value-altered:BatchSet", "item %d key %q arrived as %q with %d of %d bytes (%v)", j, ks[j], w.Key, len(raw), len(items[j].Value), e)
		}
		ms := int64(0)
		if w.TTL != nil {
			ms = *w.TTL
		}
		d := items[j].TTL
		lo, hi := max(int64(d/time.Millisecond), 1), int64(d/time.Millisecond)+1
		if d <= 0 && ms != 0 || d > 0 && (ms < lo || ms > hi) {
			r.Violate("ttl-altered:BatchSet", "item %d lifetime %v arrived as %d ms", j, d, ms)
		}
	}
	if err != nil || len(got) != len(ks) {
		r.Violate("batch-results:BatchSet", "%d results for %d items: %v", len(got), len(ks), err)
		return
	}
	for j, g := range got {
		if g.Key != ks[j] || g.Stored != (outcome[j] < 0) || (g.Stored && (g.Bytes != len(items[j].Value) || len(g.Owners) != len(owners[j]))) {
			r.Violate("batch-swapped:BatchSet", "item %d (%q, outcome %d) reported as %+v", j, ks[j], outcome[j], g)
		}
		checkItemErr(r, "BatchSet", j, outcome[j], fmt.Sprint("why ", j), g.Err)
	}
	r.Add("batch_items", int64(len(ks)))
	r.Case(fmt.Sprint("bset", ks, outcome), len(ks) > 1)
}

func checkKeysBody(r *kit.Run, cmd, uri string, q farm.Req, ks []string) bool {
	var body struct{ Keys []string }
	if e := json.Unmarshal(q.Body, &body); e != nil || q.Method != "POST" || q.URI != uri || !reflect.DeepEqual(body.Keys, ks) {
		r.Violate("batch-request:"+cmd, "%s %s keys %q for %q: %v", q.Method, q.URI, body.Keys, ks, e)
		return false
	}
	return true
}

func batchGet(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	ks, valid := batchKeys(rng)
	items := make([]*client.Item, len(ks))
	node := key(rng, false)
	for j, k := range ks {
		if rng.Intn(3) > 0 {
			it := rndItem(rng, k)
			if len(it.Value) > 5000 {
				it.Value = it.Value[:5000]
			}
			it.Node = node
			items[j] = &it
		}
	}
	f.Script(func(farm.Req) farm.Reply {
		res := []any{}
		for j, k := range ks {
			if items[j] == nil {
				res = append(res, map[string]any{"key": k, "found": false})
				continue
			}
			m := wire(*items[j])
			delete(m, "node")
			m["found"] = true
			res = append(res, m)
		}
		return jsonReply(map[string]any{"results": res, "node": node})
	})
	got, err := c.BatchGet(context.Background(), ks)
	if !valid {
		refused(r, f, "BatchGet", err)
		return
	}
	if len(ks) == 0 {
		if len(got) != 0 || err != nil || len(f.Log()) != 0 {
			r.Violate("empty-batch", "empty BatchGet: %v %v, %d requests", got, err, len(f.Log()))
		}
		return
	}
	q, ok := one(r, f, "BatchGet")
	if !ok || !checkKeysBody(r, "BatchGet", "/v1/cache/batch/get", q, ks) {
		return
	}
	if err != nil || len(got) != len(ks) {
		r.Violate("batch-results:BatchGet", "%d results for %d keys: %v", len(got), len(ks), err)
		return
	}
	for j, g := range got {
		want := items[j]
		if g.Key != ks[j] || g.Found != (want != nil) || (g.Item != nil) != (want != nil) {
			r.Violate("batch-swapped:BatchGet", "key %d (%q, present %v) reported as found=%v item=%v key %q", j, ks[j], want != nil, g.Found, g.Item != nil, g.Key)
			continue
		}
		if want != nil && !same(*g.Item, *want) {
			r.ViolateWith("item-altered:BatchGet", map[string]any{"served": want, "got": g.Item}, "key %d (%q) differs from what was served", j, ks[j])
		}
	}
	r.Add("batch_items", int64(len(ks)))
	r.Case(fmt.Sprint("bget", ks), len(ks) > 1)
}

func batchDelete(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	ks, valid := batchKeys(rng)
	outcome := make([]int, len(ks))
	for j := range ks {
		outcome[j] = -1
		if rng.Intn(3) == 0 {
			outcome[j] = rng.Intn(len(codes))
		}
	}
	f.Script(func(farm.Req) farm.Reply {
		res := []any{}
		for j, k := range ks {
			m := map[string]any{"key": k, "deleted": outcome[j] < 0}
			if outcome[j] >= 0 {
				m["error"], m["code"] = fmt.Sprint("why ", j), codes[outcome[j]].code
			}
			res = append(res, m)
		}
		return jsonReply(map[string]any{"results": res, "node": "n"})
	})
	got, err := c.BatchDelete(context.Background(), ks)
	if !valid {
		refused(r, f, "BatchDelete", err)
		return
	}
	if len(ks) == 0 {
		if len(got) != 0 || err != nil || len(f.Log()) != 0 {
			r.Violate("empty-batch", "empty BatchDelete: %v %v, %d requests", got, err, len(f.Log()))
		}
		return
	}
	q, ok := one(r, f, "BatchDelete")
	if !ok || !checkKeysBody(r, "BatchDelete", "/v1/cache/batch/delete", q, ks) {
		return
	}
	if err != nil || len(got) != len(ks) {
		r.Violate("batch-results:BatchDelete", "%d results for %d keys: %v", len(got), len(ks), err)
		return
	}
	for j, g := range got {
		if g.Key != ks[j] || g.Deleted != (outcome[j] < 0) {
			r.Violate("batch-swapped:BatchDelete", "key %d (%q, outcome %d) reported as %+v", j, ks[j], outcome[j], g)
		}
		checkItemErr(r, "BatchDelete", j, outcome[j], fmt.Sprint("why ", j), g.Err)
	}
	r.Add("batch_items", int64(len(ks)))
	r.Case(fmt.Sprint("bdel", ks, outcome), len(ks) > 1)
}

func identity(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	list := func() []string {
		var out []string
		for j := rng.Intn(4); j > 0; j-- {
			out = append(out, key(rng, false))
		}
		return out
	}
	want := client.Identity{ID: key(rng, false), Scopes: list(), Capabilities: list()}
	allowed := rng.Intn(2) == 0
	capability := key(rng, true)
	f.Script(func(q farm.Req) farm.Reply {
		if strings.HasPrefix(q.URI, "/v1/me/can") {
			return jsonReply(map[string]any{"capability": capability, "allowed": allowed})
		}
		return jsonReply(map[string]any{"id": want.ID, "scopes": want.Scopes, "capabilities": want.Capabilities})
	})
	got, err := c.Identity(context.Background())
	if err != nil || got == nil || got.ID != want.ID || fmt.Sprintf("%q", got.Scopes) != fmt.Sprintf("%q", want.Scopes) || fmt.Sprintf("%q", got.Capabilities) != fmt.Sprintf("%q", want.Capabilities) {
		r.Violate("identity-altered", "served %+v, got %+v %v", want, got, err)
	} else {
		for _, x := range append(append([]string{"cache.read", ""}, want.Scopes...), want.Capabilities...) {
			has := false
			for _, w := range want.Capabilities {
				has = has || w == x
			}
			if got.HasCapability(x) != has {
				r.Violate("capability", "HasCapability(%q) = %v for %q", x, !has, want.Capabilities)
			}
		}
	}
	can, err := c.Can(context.Background(), capability)
	log := f.Log()
	if err != nil || can != allowed || len(log) != 2 {
		r.Violate("can", "Can = %v, %v; served %v (%d requests)", can, err, allowed, len(log))
	} else {
		path, query, _ := strings.Cut(log[1].URI, "?")
		v, e := url.ParseQuery(query)
		if e != nil || path != "/v1/me/can" || len(v) != 1 || v.Get("capability") != capability {
			r.Violate("can-altered", "Can(%q) arrived as %q", capability, log[1].URI)
		}
	}
	r.Case(fmt.Sprint("id", want.ID), true)
}

// retry: what reaches the second endpoint after a failure is as complete as what reached the first.
func retry(r *kit.Run, f *farm.Farm, _ *client.Client, rng *rand.Rand, i int) {
	f2 := shared2()
	k, v, d := key(rng, true), value(rng), ttl(rng)
	fails := 1 + rng.Intn(3)
	cnt := 0
	var mu sync.Mutex
	mode := rng.Intn(3)
	f2.Script(func(q farm.Req) farm.Reply {
		mu.Lock()
		cnt++
		n := cnt
		mu.Unlock()
		if n <= fails {
			switch mode {
			case 0:
				return farm.Reply{Status: 503}
			case 1:
				return farm.Reply{Mode: "reset"}
			default:
				return farm.Reply{Mode: "close"}
			}
		}
		return farm.OK(q)
	})
	var urls []string
	for j := 0; j < 4; j++ {
		urls = append(urls, f2.URL(j))
	}
	c, _ := client.New(urls, client.WithHTTPClient(farm.FreshClient(20*time.Second)))
	err := c.Set(context.Background(), k, v, d)
	log := f2.Log()
	if err != nil || len(log) != fails+1 {
		r.Violate("retry", "Set over %d failing and one healthy endpoint: %v (%d requests)", fails, err, len(log))
		return
	}
	for j, q := range log {
		vals := checkKey(r, "Set-retried", q, "PUT", k)
		if !bytes.Equal(q.Body, v) {
			r.Violate("value-altered:retry", "attempt %d carried %d of %d bytes", j+1, len(q.Body), len(v))
		}
		if d > 0 && vals.Get("ttl") != log[0:1][0].URI[strings.Index(log[0].URI, "ttl=")+4:] && j > 0 {
			if x, e := time.ParseDuration(vals.Get("ttl")); e != nil || x != d {
				r.Violate("ttl-altered:retry", "attempt %d: ttl %q for %v", j+1, vals.Get("ttl"), d)
			}
		}
		if q.Header.Get("Content-Type") != log[0].Header.Get("Content-Type") {
			r.Violate("header-altered:retry", "attempt %d: Content-Type %q", j+1, q.Header.Get("Content-Type"))
		}
	}
	r.Case(fmt.Sprint("retry", k, len(v), fails, mode), true)
}

var (
	once2 sync.Once
	farm2 *farm.Farm
)

func shared2() *farm.Farm {
	once2.Do(func() { farm2 = farm.New(4) })
	return farm2
}

// parallel: concurrent commands on one client never mix keys, values or results.
func parallel(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	f.Script(func(q farm.Req) farm.Reply { // echo service
		switch {
		case q.Method == "GET":
			k, _, _ := wireKey(q)
			if q.Header.Get("Accept") == "application/json" {
				return jsonReply(map[string]any{"key": k, "value": base64.StdEncoding.EncodeToString([]byte("v:" + k)), "value_encoding": "base64"})
			}
			return farm.Reply{Status: 200, Body: []byte("v:" + k)}
		case q.URI == "/v1/cache/batch/get":
			var b struct{ Keys []string }
			_ = json.Unmarshal(q.Body, &b)
			res := []any{}
			for _, k := range b.Keys {
				res = append(res, map[string]any{"key": k, "found": true, "value": base64.StdEncoding.EncodeToString([]byte("v:" + k)), "value_encoding": "base64"})
			}
			return jsonReply(map[string]any{"results": res})
		}
		return farm.OK(q)
	})
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			for j := 0; j < 12; j++ {
				k := fmt.Sprint(w, "-", j, "-", key(rng, false))
				switch j % 3 {
				case 0:
					if v, err := c.Get(context.Background(), k); err != nil || string(v) != "v:"+k {
						r.Violate("mixed:Get", "concurrent Get(%q) = %q %v", k, v, err)
					}
				case 1:
					if it, err := c.GetItem(context.Background(), k); err != nil || it.Key != k || string(it.Value) != "v:"+k {
						r.Violate("mixed:GetItem", "concurrent GetItem(%q) = %v %v", k, it, err)
					}
				default:
					res, err := c.BatchGet(context.Background(), []string{k, k + "x"})
					if err != nil || len(res) != 2 || res[0].Key != k || string(res[0].Item.Value) != "v:"+k || string(res[1].Item.Value) != "v:"+k+"x" {
						r.Violate("mixed:BatchGet", "concurrent BatchGet(%q): %v %v", k, res, err)
					}
				}
			}
		}()
	}
	wg.Wait()
	r.Add("parallel_calls", 96)
	r.Case(fmt.Sprint("parallel", i), true)
}
