// C15: Redis connection settings reach the client as configured.
package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"reflect"
	"strings"
	"syscall"
	"time"

	goredis "github.com/redis/go-redis/v9"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/internal/vh/resp"
	"github.com/hyp3rd/hypercache/pkg/backend/redis"
	"github.com/hyp3rd/hypercache/pkg/backend/rediscluster"
)

type quiet struct{}

func (quiet) Printf(context.Context, string, ...any) {}

func main() {
	goredis.SetLogger(quiet{})
	kit.Main("C15", "random sequences of the stores' options (with repeats, nil-able and boundary values) compared field by field with the client go-redis builds from the same settings; ApplyOptions on pre-filled option structs; "+
		"an in-process server that records what actually arrives on the wire (TLS or plaintext, AUTH user/password, SELECT, dial timing); non-trivial = at least one option applied", run)
}

type opt struct {
	name string
	// apply to the store under test, and the reference setter.
	o   redis.Option
	ref func(*goredis.Options)
	c   rediscluster.Option
	cre func(*goredis.ClusterOptions)
}

func dur(rng *mrand.Rand) time.Duration {
	switch rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return -2
	case 3:
		return time.Duration(1 + rng.Intn(1000))
	}
	return time.Duration(1+rng.Intn(1e6)) * time.Millisecond
}

func word(rng *mrand.Rand) string {
	w := []string{"", "user", "Ünï", "with space", "p@ss:w/rd?x=1#f", "a", strings.Repeat("z", 300), "\"q\""}
	return w[rng.Intn(len(w))] + []string{"", fmt.Sprint(rng.Intn(100))}[rng.Intn(2)]
}

func single(rng *mrand.Rand) opt {
	switch rng.Intn(13) {
	case 0:
		a := fmt.Sprintf("127.0.0.%d:1", 1+rng.Intn(200))
		return opt{name: "Addr=" + a, o: redis.WithAddr(a), ref: func(x *goredis.Options) { x.Addr = a }}
	case 1:
		v := word(rng)
		return opt{name: "Username=" + v, o: redis.WithUsername(v), ref: func(x *goredis.Options) { x.Username = v }}
	case 2:
		v := word(rng)
		return opt{name: "Password=" + v, o: redis.WithPassword(v), ref: func(x *goredis.Options) { x.Password = v }}
	case 3:
		v := rng.Intn(20)
		return opt{name: fmt.Sprint("DB=", v), o: redis.WithDB(v), ref: func(x *goredis.Options) { x.DB = v }}
	case 4:
		v := rng.Intn(12) - 1
		return opt{name: fmt.Sprint("MaxRetries=", v), o: redis.WithMaxRetries(v), ref: func(x *goredis.Options) { x.MaxRetries = v }}
	case 5:
		v := dur(rng)
		return opt{name: fmt.Sprint("DialTimeout=", v), o: redis.WithDialTimeout(v), ref: func(x *goredis.Options) { x.DialTimeout = v }}
	case 6:
		v := dur(rng)
		return opt{name: fmt.Sprint("ReadTimeout=", v), o: redis.WithReadTimeout(v), ref: func(x *goredis.Options) { x.ReadTimeout = v }}
	case 7:
		v := dur(rng)
		return opt{name: fmt.Sprint("WriteTimeout=", v), o: redis.WithWriteTimeout(v), ref: func(x *goredis.Options) { x.WriteTimeout = v }}
	case 8:
		v := rng.Intn(2) == 0
		return opt{name: fmt.Sprint("PoolFIFO=", v), o: redis.WithPoolFIFO(v), ref: func(x *goredis.Options) { x.PoolFIFO = v }}
	case 9:
		v := rng.Intn(60)
		return opt{name: fmt.Sprint("PoolSize=", v), o: redis.WithPoolSize(v), ref: func(x *goredis.Options) { x.PoolSize = v }}
	case 10:
		v := dur(rng)
		return opt{name: fmt.Sprint("PoolTimeout=", v), o: redis.WithPoolTimeout(v), ref: func(x *goredis.Options) { x.PoolTimeout = v }}
	case 11:
		var v *tls.Config
		if rng.Intn(4) > 0 {
			v = &tls.Config{ServerName: fmt.Sprint("h", rng.Intn(9))}
		}
		return opt{name: fmt.Sprint("TLSConfig=", v != nil), o: redis.WithTLSConfig(v), ref: func(x *goredis.Options) { x.TLSConfig = v }}
	}
	v := rng.Intn(6)
	return opt{name: fmt.Sprint("MinIdleConns=", v), o: redis.WithMinIdleConns(v), ref: func(x *goredis.Options) { x.MinIdleConns = v }}
}

func clustered(rng *mrand.Rand) opt {
	switch rng.Intn(10) {
	case 0:
		var a []string
		for i := 0; i < 1+rng.Intn(3); i++ {
			a = append(a, fmt.Sprintf("127.0.0.%d:1", 1+rng.Intn(200)))
		}
		return opt{name: fmt.Sprint("Addrs=", a), c: rediscluster.WithAddrs(a...), cre: func(x *goredis.ClusterOptions) { x.Addrs = append([]string(nil), a...) }}
	case 1:
		v := word(rng)
		return opt{name: "Username=" + v, c: rediscluster.WithUsername(v), cre: func(x *goredis.ClusterOptions) { x.Username = v }}
	case 2:
		v := word(rng)
		return opt{name: "Password=" + v, c: rediscluster.WithPassword(v), cre: func(x *goredis.ClusterOptions) { x.Password = v }}
	case 3:
		v := rng.Intn(12) - 1
		return opt{name: fmt.Sprint("MaxRetries=", v), c: rediscluster.WithMaxRetries(v), cre: func(x *goredis.ClusterOptions) { x.MaxRetries = v }}
	case 4:
		v := dur(rng)
		return opt{name: fmt.Sprint("ReadTimeout=", v), c: rediscluster.WithReadTimeout(v), cre: func(x *goredis.ClusterOptions) { x.ReadTimeout = v }}
	case 5:
		v := dur(rng)
		return opt{name: fmt.Sprint("WriteTimeout=", v), c: rediscluster.WithWriteTimeout(v), cre: func(x *goredis.ClusterOptions) { x.WriteTimeout = v }}
	case 6:
		v := rng.Intn(60)
		return opt{name: fmt.Sprint("PoolSize=", v), c: rediscluster.WithPoolSize(v), cre: func(x *goredis.ClusterOptions) { x.PoolSize = v }}
	case 7:
		v := dur(rng)
		return opt{name: fmt.Sprint("PoolTimeout=", v), c: rediscluster.WithPoolTimeout(v), cre: func(x *goredis.ClusterOptions) { x.PoolTimeout = v }}
	case 8:
		var v *tls.Config
		if rng.Intn(4) > 0 {
			v = &tls.Config{ServerName: fmt.Sprint("h", rng.Intn(9))}
		}
		return opt{name: fmt.Sprint("TLSConfig=", v != nil), c: rediscluster.WithTLSConfig(v), cre: func(x *goredis.ClusterOptions) { x.TLSConfig = v }}
	}
	v := rng.Intn(6)
	return opt{name: fmt.Sprint("MinIdleConns=", v), c: rediscluster.WithMinIdleConns(v), cre: func(x *goredis.ClusterOptions) { x.MinIdleConns = v }}
}

// diff lists the exported, comparable fields that differ.
func diff(a, b any) []string {
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	var out []string
	for i := 0; i < va.NumField(); i++ {
		f := va.Type().Field(i)
		if !f.IsExported() || f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Interface || f.Name == "MaintNotificationsConfig" {
			continue
		}
		x, y := va.Field(i), vb.Field(i)
		if f.Type.Kind() == reflect.Pointer {
			if x.Pointer() != y.Pointer() {
				// an equivalent copy of a TLS configuration is as good
				cx, ok1 := x.Interface().(*tls.Config)
				cy, ok2 := y.Interface().(*tls.Config)
				if ok1 && ok2 && cx != nil && cy != nil && cx.ServerName == cy.ServerName && cx.InsecureSkipVerify == cy.InsecureSkipVerify && cx.RootCAs == cy.RootCAs {
					continue
				}
				out = append(out, f.Name)
			}
			continue
		}
		if x.Kind() == reflect.Slice && x.Len() == 0 && y.Len() == 0 {
			continue
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			out = append(out, fmt.Sprintf("%s=%v want %v", f.Name, x.Interface(), y.Interface()))
		}
	}
	return out
}

func defaults() *goredis.Options {
	return &goredis.Options{
		MaxRetries: constants.RedisClientMaxRetries, DialTimeout: constants.RedisDialTimeout,
		ReadTimeout: constants.RedisClientReadTimeout, WriteTimeout: constants.RedisClientWriteTimeout,
		PoolSize: constants.RedisClientPoolSize, MinIdleConns: constants.RedisClientMinIdleConns, PoolTimeout: constants.RedisClientPoolTimeout,
	}
}

func cdefaults() *goredis.ClusterOptions {
	return &goredis.ClusterOptions{
		MaxRetries: constants.RedisClientMaxRetries, DialTimeout: constants.RedisDialTimeout,
		ReadTimeout: constants.RedisClientReadTimeout, WriteTimeout: constants.RedisClientWriteTimeout,
		PoolSize: constants.RedisClientPoolSize, MinIdleConns: constants.RedisClientMinIdleConns, PoolTimeout: constants.RedisClientPoolTimeout,
	}
}

func run(r *kit.Run) {
	if r.Phase("constants") {
		// The documented defaults of the connection settings.
		for n, p := range map[string][2]any{
			"dial": {constants.RedisDialTimeout, 10 * time.Second}, "read": {constants.RedisClientReadTimeout, 30 * time.Second},
			"write": {constants.RedisClientWriteTimeout, 30 * time.Second}, "pool": {constants.RedisClientPoolTimeout, 30 * time.Second},
			"retries": {constants.RedisClientMaxRetries, 10}, "size": {constants.RedisClientPoolSize, 20}, "idle": {constants.RedisClientMinIdleConns, 10},
		} {
			if p[0] != p[1] {
				r.Assume(fmt.Sprintf("default %s is now %v", n, p[0]))
			}
		}
	}
	if r.Phase("options-single") {
		for i := 0; i < r.N(400, 20000); i++ {
			rng := r.Rand("single", i)
			n := rng.Intn(7)
			var os []redis.Option
			raw := defaults()
			addr := fmt.Sprintf("127.0.0.%d:1", 1+rng.Intn(200))
			os = append(os, redis.WithAddr(addr))
			raw.Addr = addr
			names := ""
			for j := 0; j < n; j++ {
				o := single(rng)
				os = append(os, o.o)
				o.ref(raw)
				names += o.name + ";"
				r.Seen("options", strings.SplitN(o.name, "=", 2)[0])
			}
			st, err := redis.New(os...)
			r.Case("single:"+names, n > 0)
			if err != nil {
				r.Violate("single-refused", "New(%s) refused a usable address %q: %v", names, raw.Addr, err)
				continue
			}
			want := goredis.NewClient(raw)
			if d := diff(st.Client.Options(), want.Options()); len(d) > 0 {
				r.Violate("single-option", "redis.New(%s): settings differ from what was asked: %v", names, d)
			}
			if i < 2 {
				r.Sample("single", map[string]any{"options": names, "addr": st.Client.Options().Addr, "retries": st.Client.Options().MaxRetries})
			}
			st.Client.Close()
			want.Close()
		}
	}
	if r.Phase("options-cluster") {
		for i := 0; i < r.N(400, 20000); i++ {
			rng := r.Rand("cluster", i)
			n := rng.Intn(7)
			raw := cdefaults()
			addr := fmt.Sprintf("127.0.0.%d:1", 1+rng.Intn(200))
			os := []rediscluster.Option{rediscluster.WithAddrs(addr)}
			raw.Addrs = []string{addr}
			names := ""
			for j := 0; j < n; j++ {
				o := clustered(rng)
				os = append(os, o.c)
				o.cre(raw)
				names += o.name + ";"
				r.Seen("cluster-options", strings.SplitN(o.name, "=", 2)[0])
			}
			st, err := rediscluster.New(os...)
			r.Case("cluster:"+names, n > 0)
			if err != nil {
				r.Violate("cluster-refused", "New(%s) refused usable addresses: %v", names, err)
				continue
			}
			want := goredis.NewClusterClient(raw)
			if d := diff(st.Client.Options(), want.Options()); len(d) > 0 {
				r.Violate("cluster-option", "rediscluster.New(%s): settings differ from what was asked: %v", names, d)
			}
			st.Client.Close()
			want.Close()
		}
	}
	if r.Phase("apply") {
		// Every option on a pre-filled struct touches only its own field.
		for i := 0; i < r.N(2000, 50000); i++ {
			rng := r.Rand("apply", i)
			a, b := &goredis.Options{}, &goredis.Options{}
			ca, cb := &goredis.ClusterOptions{}, &goredis.ClusterOptions{}
			names := ""
			for j := 0; j < 12; j++ { // random prior state through the reference setters only
				o := single(rng)
				o.ref(a)
				o.ref(b)
				c := clustered(rng)
				c.cre(ca)
				c.cre(cb)
			}
			var os []redis.Option
			var cs []rediscluster.Option
			for j := 0; j < rng.Intn(4); j++ {
				o, c := single(rng), clustered(rng)
				os, cs = append(os, o.o), append(cs, c.c)
				o.ref(b)
				c.cre(cb)
				names += o.name + "|" + c.name + ";"
			}
			redis.ApplyOptions(a, os...)
			rediscluster.ApplyOptions(ca, cs...)
			r.Case("apply:"+names, len(os) > 0)
			if d := diff(a, b); len(d) > 0 {
				r.Violate("apply-single", "ApplyOptions(%s): %v", names, d)
			}
			if d := diff(ca, cb); len(d) > 0 {
				r.Violate("apply-cluster", "ApplyOptions(%s): %v", names, d)
			}
		}
	}
	if r.Phase("address") {
		for _, a := range []string{"", " ", "\t", "\n ", "   \t"} {
			for _, pre := range [][]redis.Option{nil, {redis.WithAddr("127.0.0.1:1")}, {redis.WithPassword("x"), redis.WithDB(3)}} {
				st, err := redis.New(append(append([]redis.Option{}, pre...), redis.WithAddr(a))...)
				r.Case(fmt.Sprintf("addr:%q/%d", a, len(pre)), true)
				if err == nil {
					r.Violate("empty-address", "redis.New with address %q was accepted and uses %q", a, st.Client.Options().Addr)
					st.Client.Close()
				}
			}
			for _, as := range [][]string{{a}, {"127.0.0.1:1", a}, {a, "127.0.0.1:1"}, {"127.0.0.1:1", a, "127.0.0.1:2"}} {
				st, err := rediscluster.New(rediscluster.WithAddrs(as...))
				r.Case(fmt.Sprintf("addrs:%q", as), true)
				if err == nil {
					r.Violate("empty-address-cluster", "rediscluster.New with addresses %q was accepted", as)
					st.Client.Close()
				}
			}
		}
		if st, err := redis.New(); err == nil {
			r.Violate("empty-address", "redis.New() without address uses %q", st.Client.Options().Addr)
		}
		if st, err := redis.New(redis.WithPassword("p")); err == nil {
			r.Violate("empty-address", "redis.New without address uses %q", st.Client.Options().Addr)
		}
		for _, o := range [][]rediscluster.Option{nil, {rediscluster.WithAddrs()}, {rediscluster.WithAddrs("127.0.0.1:1"), rediscluster.WithAddrs()}} {
			if st, err := rediscluster.New(o...); err == nil {
				r.Violate("empty-address-cluster", "rediscluster.New without addresses accepted (%v)", st.Client.Options().Addrs)
			}
		}
	}
	if r.Phase("wire") {
		wire(r)
	}
	if r.Phase("dial-timeout") {
		dialTimeout(r)
	}
}

func selfSigned() (tls.Certificate, *x509.CertPool) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "redis.test"}, DNSNames: []string{"redis.test"},
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	p := x509.NewCertPool()
	p.AddCert(c)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, p
}

func wire(r *kit.Run) {
	cert, pool := selfSigned()
	for i := 0; i < r.N(40, 600); i++ {
		rng := r.Rand("wire", i)
		var srvTLS *tls.Config
		useTLS := rng.Intn(2) == 0
		if useTLS {
			srvTLS = &tls.Config{Certificates: []tls.Certificate{cert}}
		}
		s, err := resp.Start(srvTLS)
		if err != nil {
			panic(err)
		}
		user, pass, db := "", "", rng.Intn(8)
		if rng.Intn(3) > 0 {
			pass = fmt.Sprintf("pw%d", rng.Intn(100))
			if rng.Intn(2) == 0 {
				user = fmt.Sprintf("u%d", rng.Intn(100))
			}
		}
		s.Password, s.Username = pass, user
		os := []redis.Option{redis.WithAddr(s.Addr), redis.WithDB(db), redis.WithMinIdleConns(0), redis.WithMaxRetries(-1), redis.WithDialTimeout(2 * time.Second)}
		if pass != "" {
			os = append(os, redis.WithPassword(pass))
		}
		if user != "" {
			os = append(os, redis.WithUsername(user))
		}
		if useTLS {
			os = append(os, redis.WithTLSConfig(&tls.Config{RootCAs: pool, ServerName: "redis.test"}))
		}
		rng.Shuffle(len(os), func(a, b int) { os[a], os[b] = os[b], os[a] })
		st, err := redis.New(os...)
		if err != nil {
			r.Violate("single-refused", "%v", err)
			s.Close()
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		err = st.Client.Ping(ctx).Err()
		cancel()
		desc := fmt.Sprintf("tls=%v user=%q pass=%q db=%d", useTLS, user, pass, db)
		r.Case("wire:"+desc, true)
		r.Seen("wire", fmt.Sprintf("tls=%v auth=%v user=%v", useTLS, pass != "", user != ""))
		if err != nil {
			r.Violate("wire-connect", "%s: the store cannot talk to the server it was configured for: %v", desc, err)
		}
		for _, c := range s.Conns() {
			if useTLS && !c.TLS {
				r.Violate("wire-plaintext", "%s: a connection started with byte %q instead of a TLS handshake", desc, c.FirstRaw)
			}
			if c.Commands > 0 && pass != "" && (c.Pass != pass || (user != "" && c.User != user)) {
				r.Violate("wire-auth", "%s: authenticated as %q/%q", desc, c.User, c.Pass)
			}
			if c.Commands > 0 && c.DB != db {
				r.Violate("wire-db", "%s: commands ran in database %d", desc, c.DB)
			}
			r.Add("connections_observed", 1)
		}
		st.Client.Close()
		s.Close()
	}
	// A TLS store against a plaintext server must not fall back to plaintext.
	s, err := resp.Start(nil)
	if err != nil {
		panic(err)
	}
	st, err := redis.New(redis.WithAddr(s.Addr), redis.WithPassword("secret"), redis.WithMinIdleConns(0), redis.WithMaxRetries(-1), redis.WithTLSConfig(&tls.Config{RootCAs: pool, ServerName: "redis.test"}))
	if err == nil {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		e := st.Client.Ping(ctx).Err()
		cancel()
		r.Case("wire:tls-to-plaintext", true)
		if e == nil {
			r.Violate("wire-plaintext", "a store configured for TLS talked to a plaintext server")
		}
		for _, c := range s.Conns() {
			if c.Pass != "" {
				r.Violate("wire-plaintext", "a store configured for TLS sent its password in clear")
			}
		}
		st.Client.Close()
	}
	s.Close()
	// Cluster store over TLS and with credentials.
	for i := 0; i < r.N(6, 60); i++ {
		rng := r.Rand("wire-cluster", i)
		useTLS := i%2 == 0
		var cfg *tls.Config
		if useTLS {
			cfg = &tls.Config{Certificates: []tls.Certificate{cert}}
		}
		n, err := resp.Start(cfg)
		if err != nil {
			panic(err)
		}
		n.Cluster = &resp.Cluster{Nodes: []*resp.Server{n}}
		n.Password = fmt.Sprintf("p%d", rng.Intn(10))
		if rng.Intn(2) == 0 {
			n.Username = "alice"
		}
		os := []rediscluster.Option{rediscluster.WithAddrs(n.Addr), rediscluster.WithPassword(n.Password), rediscluster.WithMinIdleConns(0), rediscluster.WithMaxRetries(1)}
		if n.Username != "" {
			os = append(os, rediscluster.WithUsername(n.Username))
		}
		if useTLS {
			os = append(os, rediscluster.WithTLSConfig(&tls.Config{RootCAs: pool, ServerName: "redis.test"}))
		}
		st, err := rediscluster.New(os...)
		if err != nil {
			r.Violate("cluster-refused", "%v", err)
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		err = st.Client.HSet(ctx, "k", "f", "v").Err()
		cancel()
		r.Case(fmt.Sprintf("wire-cluster:%v:%s", useTLS, n.Username), true)
		if err != nil {
			r.Violate("wire-connect-cluster", "tls=%v user=%q: %v", useTLS, n.Username, err)
		}
		for _, c := range n.Conns() {
			if useTLS && !c.TLS {
				r.Violate("wire-plaintext-cluster", "a connection started with byte %q instead of a TLS handshake", c.FirstRaw)
			}
			if c.Commands > 0 && (c.Pass != n.Password || c.User != n.Username) {
				r.Violate("wire-auth-cluster", "authenticated as %q/%q, configured %q/%q", c.User, c.Pass, n.Username, n.Password)
			}
			r.Add("connections_observed", 1)
		}
		st.Client.Close()
		n.Close()
	}
}

// dialTimeout connects to an address whose accept queue is full, so a connect hangs until the
// dial timeout: the configured one must end it, not the default.
func dialTimeout(r *kit.Run) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		r.Inconclusive("no raw socket")
		return
	}
	defer syscall.Close(fd)
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		r.Inconclusive("no raw listener")
		return
	}
	sa, _ := syscall.Getsockname(fd)
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	var held []net.Conn
	defer func() {
		for _, c := range held {
			c.Close()
		}
	}()
	full := false
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 500*time.Millisecond)
		if err != nil {
			full = true
			break
		}
		held = append(held, c)
	}
	if !full {
		r.Inconclusive("accept queue never filled")
		return
	}
	st, err := redis.New(redis.WithAddr(addr), redis.WithMinIdleConns(0), redis.WithMaxRetries(-1), redis.WithDialTimeout(100*time.Millisecond))
	if err != nil {
		r.Violate("single-refused", "%v", err)
		return
	}
	defer st.Client.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	t := time.Now()
	e := st.Client.Ping(ctx).Err()
	d := time.Since(t)
	r.Case("dial-timeout", true)
	r.Max("dial_ms", d.Milliseconds())
	if e == nil {
		r.Inconclusive("connected after all")
		return
	}
	// up to 5 attempts of 100 ms plus pauses; one default-length attempt alone would take 10 s
	if d > 8*time.Second {
		r.Violate("dial-timeout", "a dial timeout of 100 ms took %v to fail", d)
	}
}
