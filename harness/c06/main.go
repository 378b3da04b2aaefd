// C06: server answers map to the documented client error, never to a false success.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/farm"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

func main() {
	kit.Main("C06", "every HTTP status 300..599 with every envelope code and body shape (canonical, HTML, empty, binary, wrong types, huge) for every command, and corrupted success bodies "+
		"(cut at every point, bad base64, wrong types, short content) for every decoding command; errors compared with an independent table of the documented sentinels; "+
		"non-trivial = anything but a plain success", run)
}

func run(r *kit.Run) {
	f := farm.New(1)
	defer f.Close()
	c, err := client.New([]string{f.URL(0)})
	if err != nil {
		panic(err)
	}
	if r.Phase("success") {
		f.Script(farm.OK)
		for _, cmd := range farm.Cmds {
			if err := cmd.Run(context.Background(), c); err != nil {
				r.Violate("success-reported-as-failure", "%s: %v", cmd.Name, err)
			}
			r.Case("ok"+cmd.Name, false)
		}
	}
	if r.Phase("statuses") {
		for _, cmd := range farm.Cmds {
			for st := 300; st < 600; st++ {
				n := 1
				if st%100 < 30 || !r.Quick() {
					n = r.N(3, 40)
				}
				for k := 0; k < n; k++ {
					status(r, f, c, cmd, st, r.Rand("status"+cmd.Name, st, k))
				}
			}
		}
	}
	if r.Phase("corrupt") {
		for i := 0; i < r.N(6000, 150000); i++ {
			corrupt(r, f, c, r.Rand("corrupt", i), i)
		}
	}
	if r.Phase("stalled") {
		stalled(r, f)
	}
	if r.Phase("parallel") {
		for i := 0; i < r.N(10, 200); i++ {
			parallel(r, f, c, r.Rand("parallel", i), i)
		}
	}
}

var codes = []string{"NOT_FOUND", "UNAUTHORIZED", "DRAINING", "BAD_REQUEST", "INTERNAL", "FORBIDDEN", "SOMETHING_ELSE", "not_found"}

// sentinels: what the documentation says each one stands for.
var sentinels = []struct {
	name   string
	err    error
	code   string
	status func(int) bool
}{
	{"ErrNotFound", client.ErrNotFound, "NOT_FOUND", func(s int) bool { return s == 404 }},
	{"ErrUnauthorized", client.ErrUnauthorized, "UNAUTHORIZED", func(s int) bool { return s == 401 }},
	{"ErrForbidden", client.ErrForbidden, "FORBIDDEN", func(s int) bool { return s == 403 }},
	{"ErrDraining", client.ErrDraining, "DRAINING", func(s int) bool { return s == 503 }},
	{"ErrBadRequest", client.ErrBadRequest, "BAD_REQUEST", func(s int) bool { return s == 400 }},
	{"ErrInternal", client.ErrInternal, "INTERNAL", func(s int) bool { return s >= 500 && s != 503 }},
}

func known(code string) bool {
	for _, s := range sentinels {
		if s.code == code {
			return true
		}
	}
	return false
}

var texts = []string{"", "boom", "key 'x' has \"quotes\"", "naïve ☃", strings.Repeat("long ", 400), strings.Repeat("longer ", 1500), strings.Repeat("\"q\" ", 16000), "<b>", "line\nbreak", "%s %d %w"}

func status(r *kit.Run, f *farm.Farm, c *client.Client, cmd farm.Cmd, st int, rng *rand.Rand) {
	var body []byte
	code, msg, det := "", "", ""
	canonical := false
	shape := rng.Intn(9)
	switch shape {
	case 0, 1, 2, 3, 4:
		canonical = true
		code = codes[rng.Intn(len(codes))]
		if rng.Intn(2) == 0 { // the code that belongs to the status, when there is one
			for _, s := range sentinels {
				if s.status(st) {
					code = s.code
				}
			}
		}
		msg, det = texts[rng.Intn(len(texts))], texts[rng.Intn(len(texts))]
		m := map[string]any{"code": code, "error": msg}
		if det != "" || rng.Intn(2) == 0 {
			m["details"] = det
		}
		if rng.Intn(3) == 0 {
			m["extra"] = []int{1, 2}
		}
		body, _ = json.Marshal(m)
	case 5:
		body = []byte("<html><body>Bad Gateway</body></html>")
	case 6:
	case 7:
		body = make([]byte, rng.Intn(3)*rng.Intn(200000))
		rng.Read(body)
	case 8:
		body = [][]byte{[]byte(`{"code":5,"error":true}`), []byte(`[]`), []byte(`null`), []byte(`{"code":"NOT_FO`), []byte(`"x"`), []byte(`{}`), []byte(`{"error":"no code"}`)}[rng.Intn(7)]
	}
	if st == 304 {
		body, code, msg, det, canonical = nil, "", "", "", false // no body allowed
	}
	f.Script(func(farm.Req) farm.Reply {
		return farm.Reply{Status: st, Body: body, Header: map[string]string{"Content-Type": "application/json"}}
	})
	var err error
	r.Guard(func() { err = cmd.Run(context.Background(), c) })
	where := fmt.Sprintf("%s answered %d (body shape %d, code %q): %v", cmd.Name, st, shape, code, clip(fmt.Sprint(err)))
	if err == nil {
		r.Violate("false-success", "%s", where)
		return
	}
	var se *client.StatusError
	if !errors.As(err, &se) {
		r.Violate("status-lost", "%s", where)
		return
	}
	if se.HTTPStatus != st {
		r.Violate("status-wrong", "%s: exposed status %d", where, se.HTTPStatus)
	}
	if canonical && (se.Code != code || se.Message != msg || se.Details != det) {
		r.Violate("envelope-lost", "%s: exposed %q %q %q, sent %q %q %q", where, se.Code, clip(se.Message), clip(se.Details), code, clip(msg), clip(det))
	}
	if !canonical {
		if se.Code != "" {
			r.Violate("code-invented", "%s: exposed code %q", where, se.Code)
		}
		m := strings.TrimSuffix(se.Message, "...")
		if len(se.Message) > 600 || !strings.HasPrefix(string(body), m) || (len(body) > 0 && m == "") {
			r.Violate("message-invented", "%s: exposed a message of %d bytes that is not a prefix of the body", where, len(se.Message))
		}
	}
	for _, s := range sentinels {
		got := errors.Is(err, s.err)
		byStatus := s.status(st)
		byCode := code != "" && code == s.code
		switch {
		case byStatus && (byCode || !known(code)) && !got:
			r.Violate("sentinel-missing:"+s.name, "%s does not match %s", where, s.name)
		case byCode && !byStatus && s.name != "ErrForbidden" && !got:
			r.Violate("sentinel-missing:"+s.name, "%s does not match %s by its code", where, s.name)
		case !byStatus && !byCode && got:
			r.Violate("sentinel-wrong:"+s.name, "%s matches %s", where, s.name)
		}
		if got {
			r.Seen("sentinel", s.name)
		}
	}
	r.Seen("status_class", fmt.Sprint(st/100))
	r.Case(fmt.Sprint("st", cmd.Name, st, shape, code, len(msg), len(det)), true)
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

type call struct {
	name string
	good func(rng *rand.Rand) ([]byte, []string) // body, string fields whose corruption must show
	run  func(c *client.Client) (any, error)
}

var calls = []call{
	{"GetItem", func(rng *rand.Rand) ([]byte, []string) {
		v := make([]byte, 1+rng.Intn(60))
		rng.Read(v)
		b, _ := json.Marshal(map[string]any{"key": "k", "value": base64.StdEncoding.EncodeToString(v), "value_encoding": "base64", "ttl_ms": 5, "version": 7, "node": "n", "owners": []string{"a", "b"}})
		return b, []string{"value"}
	}, func(c *client.Client) (any, error) { return c.GetItem(context.Background(), "k") }},
	{"Identity", func(*rand.Rand) ([]byte, []string) {
		return []byte(`{"id":"svc","scopes":["read"],"capabilities":["cache.read"]}`), nil
	}, func(c *client.Client) (any, error) { return c.Identity(context.Background()) }},
	{"Can", func(*rand.Rand) ([]byte, []string) { return []byte(`{"capability":"cache.read","allowed":true}`), nil },
		func(c *client.Client) (any, error) { return c.Can(context.Background(), "cache.read") }},
	{"BatchGet", func(rng *rand.Rand) ([]byte, []string) {
		v := make([]byte, 1+rng.Intn(40))
		rng.Read(v)
		b, _ := json.Marshal(map[string]any{"results": []any{map[string]any{"key": "a", "found": true, "value": base64.StdEncoding.EncodeToString(v), "value_encoding": "base64"}, map[string]any{"key": "b", "found": false}}, "node": "n"})
		return b, []string{"value"}
	}, func(c *client.Client) (any, error) { return c.BatchGet(context.Background(), []string{"a", "b"}) }},
	{"BatchSet", func(*rand.Rand) ([]byte, []string) {
		return []byte(`{"results":[{"key":"a","stored":true,"bytes":1},{"key":"b","stored":false,"error":"x","code":"INTERNAL"}],"node":"n"}`), nil
	}, func(c *client.Client) (any, error) {
		return c.BatchSet(context.Background(), []client.BatchSetItem{{Key: "a"}, {Key: "b"}})
	}},
	{"BatchDelete", func(*rand.Rand) ([]byte, []string) {
		return []byte(`{"results":[{"key":"a","deleted":true},{"key":"b","deleted":true}],"node":"n"}`), nil
	}, func(c *client.Client) (any, error) { return c.BatchDelete(context.Background(), []string{"a", "b"}) }},
	{"RefreshTopology", func(*rand.Rand) ([]byte, []string) {
		return []byte(`{"members":[{"id":"a","address":"127.0.0.1:1","state":"alive"}]}`), nil
	}, func(c *client.Client) (any, error) { return nil, c.RefreshTopology(context.Background()) }},
	{"Get", func(rng *rand.Rand) ([]byte, []string) {
		v := make([]byte, 1+rng.Intn(3000))
		rng.Read(v)
		return v, nil
	}, func(c *client.Client) (any, error) { return c.Get(context.Background(), "k") }},
}

func corrupt(r *kit.Run, f *farm.Farm, c0 *client.Client, rng *rand.Rand, i int) {
	k := calls[rng.Intn(len(calls))]
	good, fields := k.good(rng)
	body := good
	mode := ""
	kind := rng.Intn(6)
	if k.name == "Get" {
		kind = 0
	}
	switch kind {
	case 0: // connection ends before the announced length
		body, mode = good[:rng.Intn(len(good)+1)], "truncate"
		if k.name != "Get" && rng.Intn(2) == 0 {
			body = good // whole document, announced one byte longer: either outcome is fine
		}
	case 1: // complete response holding a cut document
		body = good[:rng.Intn(len(good))]
	case 2: // a byte that breaks the syntax
		body = bytes.Clone(good)
		body[0] = "x]}\x00"[rng.Intn(4)]
	case 3: // field of the wrong type
		body = bytes.Replace(good, []byte(`":"`), []byte(`":7,"_":"`), 1)
		for _, w := range []string{`"members":[`, `"results":[`} {
			if bytes.Contains(good, []byte(w)) && rng.Intn(2) == 0 {
				body = bytes.Replace(good, []byte(w), []byte(w[:len(w)-1]+`5,"_":[`), 1)
			}
		}
		if k.name == "Can" {
			body = []byte(`{"capability":"cache.read","allowed":"yes"}`)
		}
	case 4: // broken base64
		if fields == nil {
			return
		}
		body = bytes.Replace(good, []byte(`"value":"`), []byte(`"value":"`+[]string{"*", "=", "\\u00e9", "A", " A"}[rng.Intn(5)]), 1)
	case 5: // not JSON at all
		body = [][]byte{[]byte("<html>login</html>"), nil, []byte("OK"), []byte("\xff\xfe"), bytes.Repeat([]byte("["), 100000), []byte("{")}[rng.Intn(6)]
	}
	f.Script(func(farm.Req) farm.Reply { return farm.Reply{Mode: mode, Status: 200, Body: body} })
	c := c0
	if mode == "truncate" || k.name == "RefreshTopology" {
		c, _ = client.New([]string{f.URL(0)}, client.WithHTTPClient(farm.FreshClient(10*time.Second)))
	}
	var got any
	var err error
	r.Guard(func() { got, err = k.run(c) })
	where := fmt.Sprintf("%s with corruption %d of a good answer (%q): %v", k.name, kind, clip(string(body)), err)
	if kind == 0 && k.name != "Get" && len(body) == len(good) {
		r.Case(where, false)
		return
	}
	if err == nil {
		r.Violate("false-success:"+k.name, "a corrupted body was accepted as %v: %s", got, where)
	}
	if k.name == "RefreshTopology" {
		if e := c.Endpoints(); len(e) != 1 || e[0] != f.URL(0) {
			r.Violate("view-corrupted", "a corrupted membership answer changed the view to %v", e)
		}
	}
	r.Seen("corruption", fmt.Sprint(k.name, ":", kind))
	r.Case(fmt.Sprint(k.name, kind, string(body)), true)
	if i < 4 {
		r.Sample("corrupt", where)
	}
}

// stalled: a body that never ends does not outlive the caller's context or the client's timeout.
func stalled(r *kit.Run, f *farm.Farm) {
	for _, cmd := range farm.Cmds {
		for _, how := range []string{"context", "timeout"} {
			f.Script(func(q farm.Req) farm.Reply { return farm.Reply{Mode: "hang"} })
			ctx, cancel := context.WithCancel(context.Background())
			to := 30 * time.Second
			if how == "context" {
				time.AfterFunc(60*time.Millisecond, cancel)
			} else {
				to = 60 * time.Millisecond
			}
			c, _ := client.New([]string{f.URL(0)}, client.WithHTTPClient(farm.FreshClient(to)))
			t := time.Now()
			err := cmd.Run(ctx, c)
			if d := time.Since(t); err == nil || d > 10*time.Second {
				r.Violate("stuck", "%s against a stalled server returned %v after %v (%s)", cmd.Name, err, d, how)
			}
			cancel()
			r.Case("stalled"+cmd.Name+how, true)
		}
	}
	f.Script(farm.OK)
}

func parallel(r *kit.Run, f *farm.Farm, c *client.Client, rng *rand.Rand, i int) {
	f.Script(func(q farm.Req) farm.Reply {
		var st int
		var code string
		fmt.Sscanf(strings.TrimPrefix(q.URI, "/v1/cache/"), "%d-%s", &st, &code)
		b, _ := json.Marshal(map[string]string{"code": code, "error": q.URI})
		return farm.Reply{Status: st, Body: b}
	})
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 10; j++ {
				st := []int{400, 401, 403, 404, 409, 500, 503}[(w+j)%7]
				code := fmt.Sprintf("C%d", w*100+j)
				_, err := c.Get(context.Background(), fmt.Sprintf("%d-%s", st, code))
				var se *client.StatusError
				if !errors.As(err, &se) || se.HTTPStatus != st || se.Code != code || se.Message != fmt.Sprintf("/v1/cache/%d-%s", st, code) {
					r.Violate("mixed", "concurrent calls mixed answers: wanted %d %s, got %v", st, code, err)
				}
			}
		}()
	}
	wg.Wait()
	r.Case(fmt.Sprint("par", i), true)
}
