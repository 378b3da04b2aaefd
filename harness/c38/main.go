// C38: peer requests over HTTP are authenticated, bounded and lossless.
//
// Oracle: items are compared field by field at both ends of the wire (the lifetime within the time the exchange took),
// the bytes on the wire are seen by a peer the monitor runs itself; for every route and every wrong credential the node's
// whole state is photographed before and after; sizes around the configured limits have a known verdict; after each
// malformed exchange the node has to be alive and to hold what it held.
package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/vh/dcl"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

func main() {
	kit.Main("C38", "an item over the wire, a request with a wrong credential, a size next to a limit, or a malformed exchange", func(r *kit.Run) {
		wire(r)
		clusters(r)
		auth(r)
		signing(r)
		limits(r)
		hostilePeer(r)
		malformed(r)
	})
}

var bg = context.Background()

// decoded is a value as JSON carries it, with numbers kept exactly.
func decoded(v any) (any, bool) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, false
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var out any
	if d.Decode(&out) != nil {
		return nil, false
	}
	return exact(out), true
}

func exact(v any) any {
	switch x := v.(type) {
	case json.Number:
		if r, ok := new(big.Rat).SetString(x.String()); ok {
			return "number " + r.RatString()
		}
		return x.String()
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = exact(x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = exact(e)
		}
		return out
	}
	return v
}

func same(a, b any) bool {
	x, ok1 := decoded(a)
	y, ok2 := decoded(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

var runes = []rune("abcXYZ019 -_./:?&=#%+\"\\'<>{}[]\t\n\r\x00\x7fäöüßéñ日本語🎈\u2028\u202e\ufffd")

func text(g *rand.Rand, max int) string {
	n := g.Intn(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(runes[g.Intn(len(runes))])
	}
	return b.String()
}

func key(g *rand.Rand) string {
	switch g.Intn(12) {
	case 0:
		return strings.Repeat("k", 1+g.Intn(6000))
	case 1: // not UTF-8
		b := make([]byte, 1+g.Intn(12))
		g.Read(b)
		return string(b)
	case 2:
		return []string{"..", ".", "/", "a/b", "null", "0", "true", " ", "a ", " a", "%41", "+", "a+b", "key=1&replicate=true", "\x00", "\ufeff", "{}", "é", "e\u0301"}[g.Intn(19)]
	}
	return text(g, 20) + fmt.Sprint(g.Intn(1<<30))
}

func number(g *rand.Rand) any {
	switch g.Intn(9) {
	case 0:
		return g.Int63()
	case 1:
		return -g.Int63()
	case 2:
		return uint64(math.MaxUint64) - uint64(g.Intn(1000))
	case 3:
		return int64(1)<<53 + int64(g.Intn(5)) - 2
	case 4:
		return g.NormFloat64() * math.Pow(10, float64(g.Intn(600)-300))
	case 5:
		return []float64{0, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e21, 1e-7, 123456789.125, -1}[g.Intn(8)]
	case 6:
		return float32(g.NormFloat64())
	case 7:
		return []int64{0, -1, 1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}[g.Intn(7)]
	}
	return g.Intn(1000)
}

type shape struct {
	Name  string            `json:"name"`
	Count int64             `json:"count"`
	Tags  map[string]string `json:"tags,omitempty"`
	When  time.Time         `json:"when"`
	Ptr   *int              `json:"ptr"`
}

func value(g *rand.Rand, depth int) any {
	switch g.Intn(13) {
	case 0:
		return nil
	case 1:
		return g.Intn(2) == 0
	case 2, 3:
		return number(g)
	case 4:
		b := make([]byte, g.Intn(300))
		g.Read(b)
		return b
	case 5:
		return shape{Name: text(g, 10), Count: g.Int63(), Tags: map[string]string{text(g, 3): text(g, 8)}, When: time.Unix(g.Int63n(1<<33), g.Int63n(1e9)).UTC()}
	case 6:
		return strings.Repeat(text(g, 8)+"x", g.Intn(2000))
	case 7:
		if b, err := json.Marshal(value(g, depth)); err == nil {
			return json.RawMessage(b)
		}
		return "{}"
	case 8, 9:
		if depth == 0 {
			return text(g, 10)
		}
		m := map[string]any{}
		for i := g.Intn(5); i > 0; i-- {
			m[text(g, 6)] = value(g, depth-1)
		}
		return m
	case 10:
		if depth == 0 {
			return ""
		}
		s := make([]any, g.Intn(5))
		for i := range s {
			s[i] = value(g, depth-1)
		}
		return s
	}
	return text(g, 60)
}

func lifetime(g *rand.Rand) time.Duration {
	switch g.Intn(7) {
	case 0, 1:
		return 0
	case 2:
		return 10*time.Second + time.Duration(g.Int63n(1e9))
	case 3:
		return time.Hour*time.Duration(1+g.Intn(1e5)) + time.Duration(g.Int63n(1e9))
	case 4:
		return math.MaxInt64 - time.Duration(g.Intn(2))*time.Duration(g.Int63n(1e9))
	}
	return 30*time.Second + time.Duration(g.Int63n(int64(time.Hour)))
}

func item(g *rand.Rand) *cache.Item {
	it := &cache.Item{Key: key(g), Value: value(g, 3), Expiration: lifetime(g), LastAccess: time.Now(),
		Version: []uint64{uint64(1 + g.Intn(1000)), 1<<53 + uint64(g.Intn(1000)), 1 << 60}[g.Intn(3)] + uint64(g.Intn(1000)),
		Origin:  []string{"n0", "n1", "other-node", "nœud-é", "a b\"c\\"}[g.Intn(5)]}
	if it.Expiration > 0 && g.Intn(2) == 0 {
		it.LastAccess = it.LastAccess.Add(-time.Duration(g.Int63n(int64(9 * time.Second))))
	}
	return it
}

func show(v any) string { b, _ := json.Marshal(v); return fmt.Sprintf("%T %.120s", v, b) }

// compare judges a copy against what was sent, `spent` being the time the exchange took at most.
func compare(r *kit.Run, where, sig string, sent, got *cache.Item, spent time.Duration) {
	bad := func(what, f string, a ...any) {
		r.Violate(sig+":"+what, "%s: key %.60q: "+f, append([]any{where, sent.Key}, a...)...)
	}
	if got == nil {
		bad("missing", "no item")
		return
	}
	if got.Key != sent.Key {
		bad("key", "arrived under key %.60q", got.Key)
	}
	if !same(sent.Value, got.Value) {
		bad("value", "value %s arrived as %s", show(sent.Value), show(got.Value))
	}
	if got.Version != sent.Version || got.Origin != sent.Origin {
		bad("version", "version %d of %q arrived as %d of %q", sent.Version, sent.Origin, got.Version, got.Origin)
	}
	switch {
	case (sent.Expiration <= 0) != (got.Expiration <= 0):
		bad("lifetime", "lifetime %v arrived as %v", sent.Expiration, got.Expiration)
	case sent.Expiration > 0:
		d := got.Expiration - sent.Expiration
		if d > 2*time.Millisecond || d < -2*time.Millisecond {
			bad("lifetime", "lifetime %v arrived as %v", sent.Expiration, got.Expiration)
		}
		if age := got.LastAccess.Sub(sent.LastAccess); age > spent+2*time.Millisecond || age < -spent-2*time.Millisecond {
			bad("age", "last used %v, arrived as last used %v later (the exchange took %v)", sent.LastAccess, age, spent)
		}
	}
}

func one(c dcl.Conf) *dcl.Cluster {
	c.N, c.RF, c.HTTP = 1, 1, true
	return dcl.New(c)
}

func direct(cl *dcl.Cluster, l backend.DistHTTPLimits, a backend.DistHTTPAuth) *backend.DistHTTPTransport {
	scheme := "http://"
	if l.TLSConfig != nil {
		scheme = "https://"
	}
	return backend.NewDistHTTPTransportWithAuth(l, a, func(id string) (string, bool) {
		for i := range cl.Nodes {
			if dcl.ID(i) == id {
				return scheme + cl.Addr(i), true
			}
		}
		return "", false
	})
}

// Items there and back between a transport and a node.
func wire(r *kit.Run) {
	if !r.Phase("wire") {
		return
	}
	tlsConf := certificate()
	for c := 0; c < r.N(6, 40); c++ {
		g := r.Rand("wire", c)
		l := backend.DistHTTPLimits{CompressionThreshold: []int{0, 1, 200, 1000}[c%4]}
		if c%3 == 2 {
			l.TLSConfig = tlsConf
		}
		a := backend.DistHTTPAuth{Token: []string{"", "tök en/+="}[c%2]}
		cl := one(dcl.Conf{Limits: l, Auth: a, Plain: true})
		t := direct(cl, l, a)
		used := map[string]bool{}
		label := fmt.Sprintf("compress>%d tls=%v auth=%v", l.CompressionThreshold, l.TLSConfig != nil, a.Token != "")
		for i := 0; i < r.N(250, 1500); i++ {
			it := item(g)
			if _, ok := decoded(it.Value); !ok || it.Key == "" {
				continue
			}
			if used[it.Key] {
				continue
			}
			used[it.Key] = true
			from := time.Now()
			if i%4 == 3 { // stored here, fetched there
				if err := cl.Net.In.ForwardSet(bg, "n0", it, false); err != nil {
					panic(err)
				}
			} else {
				if err := t.ForwardSet(bg, "n0", it, false); err != nil {
					r.Violate("set-error", "%s: ForwardSet of key %.60q value %s: %v", label, it.Key, show(it.Value), err)
					continue
				}
			}
			kept, ok := cl.Local("n0", it.Key)
			spent := time.Since(from)
			if !ok {
				r.Violate("sent:missing", "%s: key %.60q forwarded without error, not stored", label, it.Key)
				continue
			}
			compare(r, label+" forwarded", "sent", it, kept, spent)
			keptCopy := *kept
			back, ok, err := t.ForwardGet(bg, "n0", it.Key)
			if err != nil || !ok {
				r.Violate("fetch", "%s: key %.60q is held, ForwardGet says %v, %v", label, it.Key, ok, err)
				continue
			}
			compare(r, label+" fetched", "fetched", &keptCopy, back, time.Since(from))
			r.Case(fmt.Sprintf("%d/%d", c, i), true)
			r.Seen("value kinds", fmt.Sprintf("%T", it.Value))
			r.Add("items over the wire", 1)
			switch i % 9 {
			case 5: // removals name the same key
				if err := t.ForwardRemove(bg, "n0", it.Key, g.Intn(2) == 0); err != nil {
					r.Violate("remove-error", "%s: ForwardRemove of %.60q: %v", label, it.Key, err)
				}
				if _, ok := cl.Local("n0", it.Key); ok {
					r.Violate("remove-missed", "%s: key %.60q still held after a forwarded removal", label, it.Key)
				}
				if _, ok, err := t.ForwardGet(bg, "n0", it.Key); ok || err != nil {
					r.Violate("removed-found", "%s: removed key %.60q fetched: %v, %v", label, it.Key, ok, err)
				}
			case 7:
				ks, err := t.ListKeys(bg, "n0", "")
				if err != nil || !dcl.Has(ks, it.Key) {
					r.Violate("list", "%s: key %.60q held but not listed (%d keys, %v)", label, it.Key, len(ks), err)
				}
			}
			if i < 2 && c < 2 {
				r.Sample("item", map[string]any{"key": it.Key, "value": show(it.Value), "ttl": it.Expiration.String()})
			}
		}
		// What JSON cannot carry is refused rather than altered.
		for _, v := range []any{math.NaN(), math.Inf(1), make(chan int), func() {}} {
			k := fmt.Sprintf("odd %T", v)
			err := t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: v, Version: 1, Origin: "n0"}, false)
			if _, ok := cl.Local("n0", k); err == nil || ok {
				r.Violate("odd-value", "%s: ForwardSet of a %T: error %v, stored %v", label, v, err, ok)
			}
			r.Case(label+k, true)
		}
		cl.Stop()
	}
}

// Replicated writes through the nodes' own servers and transports.
func clusters(r *kit.Run) {
	if !r.Phase("clusters") {
		return
	}
	tlsConf := certificate()
	for c := 0; c < r.N(6, 40); c++ {
		g := r.Rand("clusters", c)
		l := backend.DistHTTPLimits{CompressionThreshold: []int{0, 1, 500}[c%3]}
		if c%2 == 1 {
			l.TLSConfig = tlsConf
		}
		n, rf := 3, 1+g.Intn(3)
		lv := dcl.LevelNames[g.Intn(3)]
		cl := dcl.New(dcl.Conf{N: n, RF: rf, HTTP: true, Plain: true, Limits: l, Auth: backend.DistHTTPAuth{Token: "tok"},
			Opts: func(int) []backend.DistMemoryOption {
				return []backend.DistMemoryOption{backend.WithDistWriteConsistency(dcl.Levels["ALL"]), backend.WithDistReadConsistency(dcl.Levels[lv])}
			}})
		label := fmt.Sprintf("n=%d rf=%d read=%s compress>%d tls=%v", n, rf, lv, l.CompressionThreshold, l.TLSConfig != nil)
		for i := 0; i < r.N(40, 200); i++ {
			it := dcl.Item(key(g), value(g, 3), 0)
			if _, ok := decoded(it.Value); !ok || strings.TrimSpace(it.Key) == "" || it.Value == nil {
				continue
			}
			if g.Intn(2) == 0 {
				it.Expiration = 20*time.Second + time.Duration(g.Int63n(int64(time.Hour)))
			}
			from := time.Now()
			sent := *it
			if err := cl.Any(g).DM.Set(bg, it); err != nil {
				r.Violate("cluster-set", "%s: Set of %.60q with every node up: %v", label, sent.Key, err)
				continue
			}
			owners := cl.Owners(sent.Key)
			var first *cache.Item
			for _, o := range owners {
				kept, ok := cl.Local(o, sent.Key)
				if !ok {
					r.Violate("cluster-copy:missing", "%s: owner %s of %.60q has no copy after a write at level ALL", label, o, sent.Key)
					continue
				}
				if first == nil {
					first = kept
					sent.Version, sent.Origin = kept.Version, kept.Origin
				}
				compare(r, label+" copy on "+o, "cluster-copy", &sent, kept, time.Since(from))
			}
			for _, nd := range cl.Nodes {
				got, ok := nd.DM.Get(bg, sent.Key)
				if !ok {
					r.Violate("cluster-read", "%s: %.60q not readable through %s", label, sent.Key, nd.ID)
					continue
				}
				compare(r, label+" read through "+nd.ID, "cluster-read", &sent, got, time.Since(from))
			}
			r.Case(fmt.Sprintf("cluster/%d/%d", c, i), true)
			r.Add("replicated items", 1)
		}
		for _, nd := range cl.Nodes { // anti-entropy and listing over the same wire
			for _, o := range cl.Nodes {
				if o != nd {
					if err := nd.DM.SyncWith(bg, o.ID); err != nil {
						r.Violate("cluster-sync", "%s: %s cannot synchronise with %s: %v", label, nd.ID, o.ID, err)
					}
				}
			}
		}
		cl.Stop()
	}
}

func certificate() *tls.Config {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(7), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}, RootCAs: pool, ClientCAs: pool, ClientAuth: tls.RequireAndVerifyClientCert}
}

var plainHTTP = &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

type reply struct {
	status int
	body   []byte
}

func send(method, url, body string, hd map[string][]string) (reply, error) {
	req, err := http.NewRequest(method, url, strings.NewReader(body))
	if err != nil {
		return reply{}, err
	}
	for k, v := range hd {
		req.Header[k] = v
	}
	res, err := plainHTTP.Do(req)
	if err != nil {
		return reply{}, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(io.LimitReader(res.Body, 64<<20))
	return reply{res.StatusCode, b}, err
}
