// Package resp is a small in-process Redis server (RESP2) used as the environment of the Redis
// monitors: it executes the commands a cache backend needs with real Redis semantics (hash TTLs,
// transactions, cluster slot ownership) and records every connection and command it saw.
package resp

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type entry struct {
	kind string // "hash", "set", "string"
	h    map[string]string
	s    map[string]struct{}
	v    string
	exp  time.Time
}

// Conn is what was observed about one client connection.
type Conn struct {
	TLS      bool
	User     string
	Pass     string
	Authed   bool
	DB       int
	FirstRaw byte
	Commands int
}

// Server is one fake Redis node.
type Server struct {
	Addr     string
	Password string // required when non-empty
	Username string
	Cluster  *Cluster
	Latency  func() time.Duration

	ln    net.Listener
	tls   *tls.Config
	mu    sync.Mutex
	dbs   map[int]map[string]*entry
	conns []*Conn
	open  map[net.Conn]struct{}
	log   []string
	fail  func(cmd []string) string
	wg    sync.WaitGroup
}

// Cluster is a set of nodes with slots split evenly.
type Cluster struct{ Nodes []*Server }

// Start serves on a loopback port, with TLS when cfg is not nil.
func Start(cfg *tls.Config) (*Server, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{Addr: ln.Addr().String(), ln: ln, tls: cfg, dbs: map[int]map[string]*entry{}, open: map[net.Conn]struct{}{}}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open[c] = struct{}{}
			s.mu.Unlock()
			s.wg.Add(1)
			go func() { defer s.wg.Done(); s.serve(c) }()
		}
	}()
	return s, nil
}

// StartCluster starts n nodes sharing the slot space.
func StartCluster(n int) (*Cluster, error) {
	cl := &Cluster{}
	for i := 0; i < n; i++ {
		s, err := Start(nil)
		if err != nil {
			return nil, err
		}
		s.Cluster = cl
		cl.Nodes = append(cl.Nodes, s)
	}
	return cl, nil
}

// Close stops every node.
func (c *Cluster) Close() {
	for _, n := range c.Nodes {
		n.Close()
	}
}

// Close stops the server and its connections.
func (s *Server) Close() {
	s.ln.Close()
	s.mu.Lock()
	for c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// DropConnections closes every client connection (a network blip).
func (s *Server) DropConnections() {
	s.mu.Lock()
	for c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
}

// FailWith makes f decide an error reply per command ("" executes it).
func (s *Server) FailWith(f func(cmd []string) string) { s.mu.Lock(); s.fail = f; s.mu.Unlock() }

// Conns is what was observed per connection.
func (s *Server) Conns() []Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make([]Conn, 0, len(s.conns))
	for _, c := range s.conns {
		out = append(out, *c)
	}
	return out
}

// Reset forgets data and observations.
func (s *Server) Reset() {
	s.mu.Lock()
	s.dbs = map[int]map[string]*entry{}
	s.log = nil
	s.mu.Unlock()
}

// Log is every data command executed, in order.
func (s *Server) Log() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.log...)
}

// Keys lists the live keys of a database.
func (s *Server) Keys(db int) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k := range s.dbs[db] {
		if s.get(db, k) != nil {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// TTL is the remaining life of a key: -1 none, -2 no such key.
func (s *Server) TTL(db int, k string) time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.get(db, k)
	if e == nil {
		return -2
	}
	if e.exp.IsZero() {
		return -1
	}
	return time.Until(e.exp)
}

// PutString stores a foreign plain string key.
func (s *Server) PutString(db int, k, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.db(db)[k] = &entry{kind: "string", v: v}
}

// SetHash overwrites one field of a stored hash (corruption injection).
func (s *Server) SetHash(db int, k, f, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if e := s.get(db, k); e != nil && e.kind == "hash" {
		e.h[f] = v
	}
}

func (s *Server) db(n int) map[string]*entry {
	if s.dbs[n] == nil {
		s.dbs[n] = map[string]*entry{}
	}
	return s.dbs[n]
}

func (s *Server) get(db int, k string) *entry {
	e := s.db(db)[k]
	if e == nil {
		return nil
	}
	if !e.exp.IsZero() && !time.Now().Before(e.exp) {
		delete(s.db(db), k)
		return nil
	}
	return e
}

type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (p peeked) Read(b []byte) (int, error) { return p.r.Read(b) }

func (s *Server) serve(raw net.Conn) {
	obs := &Conn{}
	defer func() {
		raw.Close()
		s.mu.Lock()
		delete(s.open, raw)
		s.mu.Unlock()
	}()
	br := bufio.NewReader(raw)
	b, err := br.Peek(1)
	if err != nil {
		return
	}
	obs.FirstRaw = b[0]
	s.mu.Lock()
	s.conns = append(s.conns, obs)
	s.mu.Unlock()
	var c net.Conn = peeked{raw, br}
	if s.tls != nil {
		t := tls.Server(c, s.tls)
		if t.Handshake() != nil {
			return
		}
		s.mu.Lock()
		obs.TLS = true
		s.mu.Unlock()
		c = t
	}
	r := bufio.NewReader(c)
	w := bufio.NewWriter(c)
	var queue [][]string
	multi := false
	dirty := false
	for {
		cmd, err := readCommand(r)
		if err != nil {
			return
		}
		if s.Latency != nil {
			if d := s.Latency(); d > 0 {
				time.Sleep(d)
			}
		}
		s.mu.Lock()
		obs.Commands++
		name := strings.ToUpper(cmd[0])
		switch {
		case name == "HELLO":
			// RESP2 only: like an old server.
			fmt.Fprint(w, "-ERR unknown command 'HELLO'\r\n")
		case name == "AUTH":
			u, p := "", cmd[1]
			if len(cmd) > 2 {
				u, p = cmd[1], cmd[2]
			}
			obs.User, obs.Pass = u, p
			if s.Password != "" && (p != s.Password || (s.Username != "" && u != s.Username)) {
				fmt.Fprint(w, "-WRONGPASS invalid username-password pair\r\n")
			} else {
				obs.Authed = true
				fmt.Fprint(w, "+OK\r\n")
			}
		case s.Password != "" && !obs.Authed:
			fmt.Fprint(w, "-NOAUTH Authentication required.\r\n")
		case name == "SELECT":
			obs.DB, _ = strconv.Atoi(cmd[1])
			fmt.Fprint(w, "+OK\r\n")
		case name == "CLIENT":
			fmt.Fprint(w, "-ERR unknown subcommand\r\n")
		case name == "PING":
			fmt.Fprint(w, "+PONG\r\n")
		case name == "READONLY":
			fmt.Fprint(w, "+OK\r\n")
		case name == "COMMAND":
			fmt.Fprint(w, "*0\r\n")
		case name == "INFO":
			bulk(w, "# Server\r\n")
		case name == "CLUSTER":
			s.clusterCmd(w, cmd)
		case name == "MULTI":
			multi, dirty, queue = true, false, nil
			fmt.Fprint(w, "+OK\r\n")
		case name == "DISCARD":
			multi = false
			fmt.Fprint(w, "+OK\r\n")
		case name == "EXEC":
			if !multi {
				fmt.Fprint(w, "-ERR EXEC without MULTI\r\n")
			} else if multi = false; dirty {
				fmt.Fprint(w, "-EXECABORT Transaction discarded because of previous errors.\r\n")
			} else {
				fmt.Fprintf(w, "*%d\r\n", len(queue))
				for _, q := range queue {
					s.exec(w, obs.DB, q)
				}
			}
		case multi:
			if e := s.refuse(cmd); e != "" {
				dirty = true
				fmt.Fprintf(w, "-%s\r\n", e)
			} else {
				queue = append(queue, cmd)
				fmt.Fprint(w, "+QUEUED\r\n")
			}
		default:
			if e := s.refuse(cmd); e != "" {
				fmt.Fprintf(w, "-%s\r\n", e)
			} else {
				s.exec(w, obs.DB, cmd)
			}
		}
		s.mu.Unlock()
		if r.Buffered() == 0 && w.Flush() != nil {
			return
		}
	}
}

// refuse applies fault injection, arity of the commands used and cluster slot ownership.
func (s *Server) refuse(cmd []string) string {
	if s.fail != nil {
		if e := s.fail(cmd); e != "" {
			return e
		}
	}
	if s.Cluster == nil {
		return ""
	}
	n := strings.ToUpper(cmd[0])
	if n == "FLUSHDB" || n == "DBSIZE" {
		return ""
	}
	keys := cmd[1:2]
	if n == "DEL" || n == "EXISTS" || n == "UNLINK" {
		keys = cmd[1:]
	}
	slot := -1
	for _, k := range keys {
		sl := Slot(k)
		if slot >= 0 && sl != slot {
			return "CROSSSLOT Keys in request don't hash to the same slot"
		}
		slot = sl
	}
	if slot >= 0 {
		if o := s.Cluster.owner(slot); o != s {
			return fmt.Sprintf("MOVED %d %s", slot, o.Addr)
		}
	}
	return ""
}

func (c *Cluster) owner(slot int) *Server {
	per := (16384 + len(c.Nodes) - 1) / len(c.Nodes)
	return c.Nodes[slot/per]
}

func (s *Server) clusterCmd(w *bufio.Writer, cmd []string) {
	if s.Cluster == nil {
		fmt.Fprint(w, "-ERR This instance has cluster support disabled\r\n")
		return
	}
	if strings.ToUpper(cmd[1]) != "SLOTS" {
		fmt.Fprint(w, "-ERR unknown subcommand\r\n")
		return
	}
	per := (16384 + len(s.Cluster.Nodes) - 1) / len(s.Cluster.Nodes)
	fmt.Fprintf(w, "*%d\r\n", len(s.Cluster.Nodes))
	for i, n := range s.Cluster.Nodes {
		h, p, _ := net.SplitHostPort(n.Addr)
		fmt.Fprintf(w, "*3\r\n:%d\r\n:%d\r\n*3\r\n", i*per, min(16383, (i+1)*per-1))
		bulk(w, h)
		fmt.Fprintf(w, ":%s\r\n", p)
		bulk(w, fmt.Sprintf("node-%d", i))
	}
}

func bulk(w *bufio.Writer, s string) { fmt.Fprintf(w, "$%d\r\n%s\r\n", len(s), s) }

func (s *Server) exec(w *bufio.Writer, db int, cmd []string) {
	if len(s.log) < 200000 {
		l := strings.Join(cmd, " ")
		if len(l) > 160 {
			l = l[:160]
		}
		s.log = append(s.log, l)
	}
	name := strings.ToUpper(cmd[0])
	wrong := func() { fmt.Fprint(w, "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n") }
	arity := func(n int) bool {
		if len(cmd) < n {
			fmt.Fprintf(w, "-ERR wrong number of arguments for '%s' command\r\n", strings.ToLower(name))
			return false
		}
		return true
	}
	switch name {
	case "DBSIZE":
		n := 0
		for k := range s.db(db) {
			if s.get(db, k) != nil {
				n++
			}
		}
		fmt.Fprintf(w, ":%d\r\n", n)
		return
	case "FLUSHDB":
		s.dbs[db] = map[string]*entry{}
		fmt.Fprint(w, "+OK\r\n")
		return
	}
	if !arity(2) {
		return
	}
	k := cmd[1]
	e := s.get(db, k)
	integer := func(n int) { fmt.Fprintf(w, ":%d\r\n", n) }
	switch name {
	case "HSET":
		if !arity(4) {
			return
		}
		if e == nil {
			e = &entry{kind: "hash", h: map[string]string{}}
			s.db(db)[k] = e
		}
		if e.kind != "hash" {
			wrong()
			return
		}
		n := 0
		for i := 2; i+1 < len(cmd); i += 2 {
			if _, ok := e.h[cmd[i]]; !ok {
				n++
			}
			e.h[cmd[i]] = cmd[i+1]
		}
		integer(n)
	case "HGET":
		if !arity(3) {
			return
		}
		if e == nil {
			fmt.Fprint(w, "$-1\r\n")
			return
		}
		if e.kind != "hash" {
			wrong()
			return
		}
		if v, ok := e.h[cmd[2]]; ok {
			bulk(w, v)
		} else {
			fmt.Fprint(w, "$-1\r\n")
		}
	case "HGETALL":
		if e == nil {
			fmt.Fprint(w, "*0\r\n")
			return
		}
		if e.kind != "hash" {
			wrong()
			return
		}
		fmt.Fprintf(w, "*%d\r\n", 2*len(e.h))
		for f, v := range e.h {
			bulk(w, f)
			bulk(w, v)
		}
	case "SADD", "SREM":
		if !arity(3) {
			return
		}
		if e == nil {
			if name == "SREM" {
				integer(0)
				return
			}
			e = &entry{kind: "set", s: map[string]struct{}{}}
			s.db(db)[k] = e
		}
		if e.kind != "set" {
			wrong()
			return
		}
		n := 0
		for _, m := range cmd[2:] {
			_, ok := e.s[m]
			if name == "SADD" && !ok {
				e.s[m] = struct{}{}
				n++
			}
			if name == "SREM" && ok {
				delete(e.s, m)
				n++
			}
		}
		if len(e.s) == 0 {
			delete(s.db(db), k)
		}
		integer(n)
	case "SISMEMBER":
		if e != nil && e.kind != "set" {
			wrong()
			return
		}
		n := 0
		if e != nil {
			if _, ok := e.s[cmd[2]]; ok {
				n = 1
			}
		}
		integer(n)
	case "SCARD":
		if e == nil {
			integer(0)
		} else if e.kind != "set" {
			wrong()
		} else {
			integer(len(e.s))
		}
	case "SMEMBERS":
		if e == nil {
			fmt.Fprint(w, "*0\r\n")
			return
		}
		if e.kind != "set" {
			wrong()
			return
		}
		fmt.Fprintf(w, "*%d\r\n", len(e.s))
		for m := range e.s {
			bulk(w, m)
		}
	case "DEL", "UNLINK", "EXISTS":
		n := 0
		for _, k := range cmd[1:] {
			if s.get(db, k) != nil {
				n++
				if name != "EXISTS" {
					delete(s.db(db), k)
				}
			}
		}
		integer(n)
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		n, err := strconv.ParseInt(cmd[2], 10, 64)
		if err != nil {
			fmt.Fprint(w, "-ERR value is not an integer or out of range\r\n")
			return
		}
		if e == nil {
			integer(0)
			return
		}
		switch name {
		case "EXPIRE":
			e.exp = time.Now().Add(time.Duration(n) * time.Second)
		case "PEXPIRE":
			e.exp = time.Now().Add(time.Duration(n) * time.Millisecond)
		case "EXPIREAT":
			e.exp = time.Unix(n, 0)
		case "PEXPIREAT":
			e.exp = time.UnixMilli(n)
		}
		integer(1)
	case "PERSIST":
		if e == nil || e.exp.IsZero() {
			integer(0)
			return
		}
		e.exp = time.Time{}
		integer(1)
	case "TTL", "PTTL":
		switch {
		case e == nil:
			integer(-2)
		case e.exp.IsZero():
			integer(-1)
		case name == "TTL":
			integer(int(time.Until(e.exp).Seconds() + 0.5))
		default:
			integer(int(time.Until(e.exp).Milliseconds()))
		}
	case "GET":
		if e == nil {
			fmt.Fprint(w, "$-1\r\n")
		} else if e.kind != "string" {
			wrong()
		} else {
			bulk(w, e.v)
		}
	case "SET":
		ne := &entry{kind: "string", v: cmd[2]}
		for i := 3; i+1 < len(cmd); i += 2 {
			n, _ := strconv.ParseInt(cmd[i+1], 10, 64)
			switch strings.ToUpper(cmd[i]) {
			case "EX":
				ne.exp = time.Now().Add(time.Duration(n) * time.Second)
			case "PX":
				ne.exp = time.Now().Add(time.Duration(n) * time.Millisecond)
			}
		}
		s.db(db)[k] = ne
		fmt.Fprint(w, "+OK\r\n")
	default:
		// A command this server does not know: the monitor treats its use as undecidable.
		s.log = append(s.log, "UNSUPPORTED "+name)
		fmt.Fprintf(w, "-ERR unknown command '%s'\r\n", cmd[0])
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	l = strings.TrimRight(l, "\r\n")
	if l == "" || l[0] != '*' {
		return nil, io.ErrUnexpectedEOF
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil || n < 1 || n > 1<<20 {
		return nil, io.ErrUnexpectedEOF
	}
	out := make([]string, n)
	for i := range out {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		ln, err := strconv.Atoi(strings.TrimRight(l[1:], "\r\n"))
		if err != nil || ln < 0 || ln > 1<<28 {
			return nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, ln+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:ln])
	}
	return out, nil
}

// Slot is the Redis cluster hash slot of a key (CRC16/XMODEM, hash tags honoured).
func Slot(key string) int {
	if i := strings.IndexByte(key, '{'); i >= 0 {
		if j := strings.IndexByte(key[i+1:], '}'); j > 0 {
			key = key[i+1 : i+1+j]
		}
	}
	var crc uint16
	for i := 0; i < len(key); i++ {
		crc ^= uint16(key[i]) << 8
		for b := 0; b < 8; b++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return int(crc & 16383)
}
