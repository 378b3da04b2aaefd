package main

import (
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type route struct{ method, path, body string }

const gossipBody = `[{"id":"intruder","address":"127.0.0.1:9","state":"alive","incarnation":9},{"id":"n1","address":"127.0.0.1:9","state":"suspect","incarnation":99}]`

var routes = []route{
	{"POST", "/internal/set", `{"key":"intruder","value":"x","version":7,"origin":"n1"}`},
	{"POST", "/internal/cache/set", `{"key":"held","value":"overwritten","version":70000,"origin":"n1","replicate":true}`},
	{"GET", "/internal/get?key=held", ""},
	{"GET", "/internal/cache/get?key=held", ""},
	{"HEAD", "/internal/get?key=held", ""},
	{"DELETE", "/internal/del?key=held&replicate=true", ""},
	{"DELETE", "/internal/cache/remove?key=held", ""},
	{"DELETE", "/internal/del?key=held&version=900000&origin=n1", ""},
	{"GET", "/health", ""},
	{"GET", "/internal/probe?target=n1", ""},
	{"POST", "/internal/gossip", gossipBody},
	{"GET", "/internal/merkle", ""},
	{"GET", "/internal/keys", ""},
	{"GET", "/internal/keys?cursor=0&q=h*", ""},
	{"POST", "/dist/drain", ""},
}

// Forms of a path a lenient router may accept.
func forms(p string) []string {
	path, q, _ := strings.Cut(p, "?")
	if q != "" {
		q = "?" + q
	}
	last := path[len(path)-1]
	return []string{p, path + "/" + q, strings.ToUpper(path) + q, "/" + path + q, path[:len(path)-1] + fmt.Sprintf("%%%02x", last) + q, "/x/.." + path + q, path + "%20" + q, path + "/." + q}
}

// photo is everything a request could change.
func photo(n *dcl.Node, cl *dcl.Cluster) string {
	var s []string
	for _, k := range []string{"held", "intruder", "other"} {
		if it, ok := cl.Local(n.ID, k); ok {
			s = append(s, fmt.Sprintf("%s=%v v%d %s", k, it.Value, it.Version, it.Origin))
		}
	}
	for _, m := range n.M.List() {
		s = append(s, fmt.Sprintf("%s@%s %s %d", m.ID, m.Address, m.State, m.Incarnation))
	}
	sort.Strings(s)
	mt := n.DM.Metrics()
	return fmt.Sprintf("%v count=%d ring=%d version=%d draining=%v tombs=%d", s, n.DM.Count(bg), len(n.M.Ring().Lookup("held")), n.M.Version(), n.DM.IsDraining(), mt.TombstonesActive)
}

func mac(r *http.Request) string {
	m := hmac.New(sha256.New, []byte("secret"))
	m.Write([]byte(r.Method + " " + r.URL.RequestURI()))
	return hex.EncodeToString(m.Sum(nil))
}

var errMac = errors.New("bad signature")

func hmacAuth(health bool) backend.DistHTTPAuth {
	return backend.DistHTTPAuth{
		ServerVerify: func(c fiber.Ctx) error {
			if health && c.Path() == "/health" {
				return nil
			}
			m := hmac.New(sha256.New, []byte("secret"))
			m.Write([]byte(c.Method() + " " + string(c.Request().RequestURI())))
			if !hmac.Equal([]byte(c.Get("X-Sig")), []byte(hex.EncodeToString(m.Sum(nil)))) {
				return errMac
			}
			return nil
		},
		ClientSign: func(r *http.Request) error { r.Header.Set("X-Sig", mac(r)); return nil },
	}
}

func bearer(v ...string) map[string][]string { return map[string][]string{"Authorization": v} }

func auth(r *kit.Run) {
	if !r.Phase("auth") {
		return
	}
	signed := hmacAuth(false)
	both := hmacAuth(false)
	both.Token = "tok-123" // ServerVerify replaces it
	exempt := hmacAuth(true)
	onlyVerify := backend.DistHTTPAuth{Token: "tok-123", ServerVerify: signed.ServerVerify}
	signToken := backend.DistHTTPAuth{Token: "tok-123", ClientSign: signed.ClientSign}
	cfgs := []struct {
		name  string
		a     backend.DistHTTPAuth
		right string // "token", "mac" or "" (open)
	}{
		{"token", backend.DistHTTPAuth{Token: "tok-123"}, "token"},
		{"token+anonymous flag", backend.DistHTTPAuth{Token: "tok-123", AllowAnonymousInbound: true}, "token"},
		{"verify+sign", signed, "mac"},
		{"verify+sign+token", both, "mac"},
		{"verify+sign, health exempt", exempt, "mac"},
		{"verify+token", onlyVerify, "mac"},
		{"token+sign", signToken, "token"},
		{"verify+anonymous flag", backend.DistHTTPAuth{ServerVerify: signed.ServerVerify, AllowAnonymousInbound: true}, "mac"},
		{"sign only, anonymous flag", backend.DistHTTPAuth{ClientSign: signed.ClientSign, AllowAnonymousInbound: true}, ""},
		{"none", backend.DistHTTPAuth{}, ""},
	}
	wrong := []map[string][]string{
		nil, bearer(""), bearer("Bearer"), bearer("Bearer "), bearer("Bearer x"), bearer("Bearer tok-12"), bearer("Bearer tok-1234"), bearer("Bearer TOK-123"), bearer("tok-123"),
		bearer("Basic dG9rLTEyMzo="), bearer("Bearer tok-123,Bearer tok-123"), bearer("Bearer  tok-123x"), bearer("Bearer Bearer tok-123"), bearer("Basic tok-123"),
		{"X-Authorization": {"Bearer tok-123"}}, {"Proxy-Authorization": {"Bearer tok-123"}}, {"Cookie": {"Authorization=Bearer tok-123"}}, {"X-Sig": {""}}, {"X-Sig": {strings.Repeat("0", 64)}},
		{"X-Forwarded-For": {"127.0.0.1"}, "X-Internal": {"true"}}, {"X-Http-Method-Override": {"GET"}},
	}
	for _, cf := range cfgs {
		cl := dcl.New(dcl.Conf{N: 2, RF: 2, HTTP: true, Plain: true, Auth: cf.a})
		n := cl.Nodes[0]
		base := "http://" + cl.Addr(0)
		must := func(err error) {
			if err != nil {
				r.Violate("own-peers-refused", "%s: the cluster's own peers: %v", cf.name, err)
			}
		}
		lopsided := cf.name == "token+sign" || cf.name == "verify+token" || cf.name == "verify+anonymous flag"
		if !lopsided { // peers of one configuration understand each other
			must(n.DM.Set(bg, dcl.Item("held", "precious", 0)))
			must(cl.Nodes[1].DM.SyncWith(bg, "n0"))
			if _, ok := cl.Local("n1", "held"); !ok {
				r.Violate("own-peers-refused", "%s: a replica got no copy", cf.name)
			}
			res, err := cl.Nodes[1].DM.ListKeys(bg, "", 0)
			if err != nil || len(res.PartialNodes) > 0 {
				r.Violate("own-peers-refused", "%s: listing: %v %v", cf.name, err, res.PartialNodes)
			}
		} else {
			must(cl.Net.In.ForwardSet(bg, "n0", &cache.Item{Key: "held", Value: "precious", Version: 5, Origin: "n0"}, false))
		}
		if cf.right != "" {
			before := photo(n, cl)
			for _, rt := range routes {
				for fi, p := range forms(rt.path) {
					for wi, hd := range wrong {
						if fi > 0 && wi > 2 && !r.Quick() == false { // the quick tier tries odd forms with a few credentials
							break
						}
						creds := hd
						// A good signature of something else is wrong too.
						res, err := send(rt.method, base+p, rt.body, creds)
						if err != nil {
							r.Inconclusive("request failed")
							continue
						}
						r.Case(fmt.Sprintf("%s %s %s %d %d", cf.name, rt.method, rt.path, fi, wi), true)
						r.Seen("refusals", fmt.Sprint(res.status))
						if cf.name == "verify+sign, health exempt" && strings.HasPrefix(strings.ToLower(p), "/health") {
							continue
						}
						if res.status < 300 {
							r.Violate("unauthenticated:"+rt.method+" "+strings.Split(rt.path, "?")[0], "%s: %s %s with headers %v answered %d %.80q", cf.name, rt.method, p, creds, res.status, res.body)
						}
						if fi == 0 && res.status != 401 {
							r.Violate("refusal-status", "%s: %s %s with headers %v answered %d, want 401", cf.name, rt.method, p, creds, res.status)
						}
						if strings.Contains(string(res.body), "precious") || strings.Contains(string(res.body), "tok-123") {
							r.Violate("leak", "%s: refusal of %s %s says %.200q", cf.name, rt.method, p, res.body)
						}
					}
				}
				if after := photo(n, cl); after != before {
					r.Violate("unauthenticated-effect:"+rt.path, "%s: refused %s %s changed the node\nbefore %s\nafter  %s", cf.name, rt.method, rt.path, before, after)
					before = after
				}
			}
		}
		// With the right credential (or none needed) every route does its work.
		for _, rt := range routes {
			hd := map[string][]string{}
			switch cf.right {
			case "token":
				hd = bearer("Bearer tok-123")
			case "mac":
				q, _ := http.NewRequest(rt.method, base+rt.path, nil)
				hd["X-Sig"] = []string{mac(q)}
			}
			if lopsided && (strings.Contains(rt.path, "probe") || strings.Contains(rt.path, "replicate") || strings.Contains(rt.path, "cache/set")) {
				continue
			}
			res, err := send(rt.method, base+rt.path, rt.body, hd)
			if err != nil {
				r.Inconclusive("request failed")
				continue
			}
			r.Case(cf.name+" right "+rt.method+rt.path, true)
			if res.status >= 300 {
				r.Violate("right-refused:"+rt.path, "%s: %s %s with the right credential answered %d %.100q", cf.name, rt.method, rt.path, res.status, res.body)
			}
		}
		if !n.DM.IsDraining() {
			r.Violate("right-refused:drain", "%s: an authorised drain did nothing", cf.name)
		}
		cl.Stop()
	}
	each(r)
	mismatch(r)
	refused(r)
}

// each: what the check says about one request holds for that request alone, whatever it said about the same
// credential, route or connection before (nonces, signatures over the body, expiry).
func each(r *kit.Run) {
	for i := 0; i < r.N(2, 12); i++ {
		g := r.Rand("each", i)
		a := backend.DistHTTPAuth{Token: "tok-123", ServerVerify: func(c fiber.Ctx) error {
			if strings.HasPrefix(c.Get("X-Req"), "yes") {
				return nil
			}
			return fiber.ErrUnauthorized
		}, ClientSign: func(q *http.Request) error { q.Header.Set("X-Req", "yes"); return nil }}
		cl := dcl.New(dcl.Conf{N: 1, RF: 1, HTTP: true, Plain: true, Auth: a})
		base := "http://" + cl.Addr(0)
		for n := 0; n < r.N(150, 600); n++ {
			rt := routes[g.Intn(len(routes))]
			if strings.Contains(rt.path, "drain") || strings.Contains(rt.path, "probe") || strings.Contains(rt.path, "replicate") || strings.Contains(rt.path, "cache/set") {
				continue
			}
			admit := g.Intn(2) == 0
			hd := map[string][]string{"X-Req": {fmt.Sprint(map[bool]string{true: "yes-", false: "no-"}[admit], n)}}
			if k := g.Intn(4); k > 0 {
				hd["Authorization"] = []string{[]string{"", "Bearer tok-123", "Bearer other", "Basic eDp5"}[k]}
			}
			before := ""
			if !admit {
				before = photo(cl.Nodes[0], cl)
			}
			res, err := send(rt.method, base+rt.path, rt.body, hd)
			if err != nil {
				r.Inconclusive("request failed")
				continue
			}
			r.Add("requests judged one by one", 1)
			r.Case(fmt.Sprint("each ", i, n), true)
			if !admit && res.status != 401 {
				r.Violate("refusal-not-final", "%s %s with %v: answered %d %.100q to a request the check refuses", rt.method, rt.path, hd, res.status, res.body)
			}
			if !admit && photo(cl.Nodes[0], cl) != before {
				r.Violate("unauthenticated-effect:"+rt.path, "%s %s with %v: a refused request changed the node", rt.method, rt.path, hd)
			}
			if admit && (res.status == 401 || res.status == 403) {
				r.Violate("right-refused:"+rt.path, "%s %s with %v: answered %d to a request the check admits", rt.method, rt.path, hd, res.status)
			}
		}
		cl.Stop()
	}
}

// Peers with another token change nothing on each other.
func mismatch(r *kit.Run) {
	tok := []backend.DistHTTPAuth{{Token: "one"}, {Token: "two"}}
	m := dcl.Conf{N: 2, RF: 1, HTTP: true}
	cl := dcl.Prepare(m)
	for i := 0; i < 2; i++ {
		c := m
		c.Plain, c.Auth = true, tok[i]
		cl.Add(c, i, 2)
	}
	defer cl.Stop()
	for i := 0; i < r.N(30, 200); i++ {
		k := fmt.Sprintf("k%d", i)
		owner := cl.Owners(k)[0]
		other := "n0"
		if owner == "n0" {
			other = "n1"
		}
		err := cl.Node(other).DM.Set(bg, dcl.Item(k, "v", 0))
		if _, ok := cl.Local(owner, k); ok {
			r.Violate("foreign-peer", "node %s holds %q written by a peer with another token", owner, k)
		}
		if err == nil {
			r.Violate("foreign-peer-quiet", "Set of %q through a node whose token the owner refuses succeeded", k)
		}
		_ = cl.Node(other).DM.Remove(bg, k)
		r.Case("mismatch"+k, true)
	}
}

// One-sided signing is refused at construction unless declared.
func refused(r *kit.Run) {
	sign := func(*http.Request) error { return nil }
	for _, open := range []bool{false, true} {
		m := cluster.NewMembership(cluster.NewRing())
		b, err := backend.NewDistMemory(context.Background(), backend.WithDistMembership(m, cluster.NewNode("solo", "127.0.0.1:0")),
			backend.WithDistHTTPAuth(backend.DistHTTPAuth{ClientSign: sign, AllowAnonymousInbound: open}))
		r.Case(fmt.Sprint("one-sided", open), true)
		if open != (err == nil) || !open && !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
			r.Violate("one-sided", "ClientSign without a verifier, anonymous inbound declared %v: error %v", open, err)
		}
		if err == nil {
			_ = b.(*backend.DistMemory).Stop(bg)
		}
	}
}

// Every operation of the transport carries the credential, and none is sent when signing fails.
func signing(r *kit.Run) {
	if !r.Phase("signing") {
		return
	}
	p := newPeer()
	defer p.close()
	for _, mode := range []string{"token", "sign", "sign+token", "fail", "none"} {
		var a backend.DistHTTPAuth
		switch mode {
		case "token":
			a.Token = "tok-123"
		case "sign":
			a = backend.DistHTTPAuth{ClientSign: hmacAuth(false).ClientSign}
		case "sign+token":
			a = backend.DistHTTPAuth{Token: "tok-123", ClientSign: hmacAuth(false).ClientSign}
		case "fail":
			a = backend.DistHTTPAuth{Token: "tok-123", ClientSign: func(*http.Request) error { return errMac }}
		}
		for _, thr := range []int{0, 10, 100000} {
			t := p.transport(backend.DistHTTPLimits{CompressionThreshold: thr}, a)
			for name, op := range ops(t) {
				got := p.during(func() { op() })
				r.Case(mode+name+fmt.Sprint(thr), true)
				err := op()
				if mode == "fail" {
					if len(got) != 0 || err == nil {
						r.Violate("sent-unsigned:"+name, "%s: signing failed, yet %d requests went out (error %v)", name, len(got), err)
					}
					continue
				}
				if len(got) == 0 {
					r.Violate("nothing-sent:"+name, "%s sent no request: %v", name, err)
					continue
				}
				for _, q := range got {
					want, sig := "", ""
					switch mode {
					case "token":
						want = "Bearer tok-123"
					case "sign", "sign+token":
						sig = q.mac
					}
					if q.hd.Get("Authorization") != want || q.hd.Get("X-Sig") != sig {
						r.Violate("credential:"+name, "%s (%s): request carried Authorization %q signature %q, want %q %q", name, mode, q.hd.Get("Authorization"), q.hd.Get("X-Sig"), want, sig)
					}
					zipped := q.hd.Get("Content-Encoding") == "gzip"
					if name == "set" && zipped != (thr > 0 && q.plain > thr) {
						r.Violate("compression", "a body of %d bytes with threshold %d: compressed %v", q.plain, thr, zipped)
					}
					if name == "set" && !strings.Contains(q.body, `"the value"`) {
						r.Violate("wire-body", "ForwardSet sent body %.200q", q.body)
					}
				}
			}
		}
	}
	// Around the threshold.
	for _, thr := range []int{64, 150, 1000} {
		t := p.transport(backend.DistHTTPLimits{CompressionThreshold: thr}, backend.DistHTTPAuth{})
		for n := 0; n < 1200; n += r.N(37, 3) {
			got := p.during(func() {
				_ = t.ForwardSet(bg, "peer", &cache.Item{Key: "k", Value: strings.Repeat("v", n), Version: 3, Origin: "o"}, false)
			})
			r.Case(fmt.Sprintf("threshold %d %d", thr, n), true)
			if len(got) != 1 || (got[0].hd.Get("Content-Encoding") == "gzip") != (got[0].plain > thr) {
				r.Violate("compression", "value of %d bytes, threshold %d: %d requests, %v", n, thr, len(got), got)
			}
		}
	}
}

func ops(t *backend.DistHTTPTransport) map[string]func() error {
	return map[string]func() error{
		"set": func() error {
			return t.ForwardSet(bg, "peer", &cache.Item{Key: "k", Value: "the value", Version: 3, Origin: "o", LastAccess: time.Now()}, true)
		},
		"get":      func() error { _, _, err := t.ForwardGet(bg, "peer", "k"); return err },
		"remove":   func() error { return t.ForwardRemove(bg, "peer", "k", true) },
		"health":   func() error { return t.Health(bg, "peer") },
		"indirect": func() error { return t.IndirectHealth(bg, "peer", "k") },
		"gossip":   func() error { return t.Gossip(bg, "peer", []backend.GossipMember{{ID: "x"}}) },
		"merkle":   func() error { _, err := t.FetchMerkle(bg, "peer"); return err },
		"keys":     func() error { _, err := t.ListKeys(bg, "peer", "a"); return err },
	}
}
