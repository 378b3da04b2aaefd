// Package dcl builds clusters of real DistMemory nodes in one process, joined by a transport that the monitors
// watch and disturb: nodes go down, links are cut, calls are delayed, fail before or after taking effect.
package dcl

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// ErrLink is what a disturbed call fails with when it does not look like a missing backend.
var ErrLink = errors.New("link failure (injected)")

// Call is one transport call as observed.
type Call struct {
	From, To, Op, Key string
	Replicate         bool
	Item              cache.Item
	Err               error
	Reached           bool // the target executed it
	Relayed           bool // a health check made on behalf of another node
}

// Net joins the nodes of one cluster.
type Net struct {
	In *backend.InProcessTransport

	mu      sync.RWMutex
	down    map[string]bool
	cut     map[[2]string]bool
	watch   atomic.Pointer[func(Call)]
	disturb atomic.Pointer[func(c Call) (fail, lose bool, delay time.Duration)]
	Calls   atomic.Int64
	Generic atomic.Bool // injected failures are plain errors instead of ErrBackendNotFound
}

// Watch sets what is called after each call, from many goroutines.
func (n *Net) Watch(fn func(Call)) { n.watch.Store(&fn) }

// Disturb sets what decides about a call before it is made: fail says it never reaches the target, lose that it takes
// effect but the caller sees an error.
func (n *Net) Disturb(fn func(c Call) (fail, lose bool, delay time.Duration)) { n.disturb.Store(&fn) }

// Calm ends the disturbance.
func (n *Net) Calm() { n.disturb.Store(nil) }

func NewNet() *Net {
	return &Net{In: backend.NewInProcessTransport(), down: map[string]bool{}, cut: map[[2]string]bool{}}
}

func (n *Net) Down(id string, down bool) {
	n.mu.Lock()
	n.down[id] = down
	n.mu.Unlock()
}

func (n *Net) IsDown(id string) bool { n.mu.RLock(); defer n.mu.RUnlock(); return n.down[id] }

// Cut severs (or heals) the link in both directions.
func (n *Net) Cut(a, b string, cut bool) {
	n.mu.Lock()
	n.cut[[2]string{a, b}], n.cut[[2]string{b, a}] = cut, cut
	n.mu.Unlock()
}

func (n *Net) Heal() {
	n.mu.Lock()
	n.down, n.cut = map[string]bool{}, map[[2]string]bool{}
	n.mu.Unlock()
}

func (n *Net) blocked(from, to string) bool {
	n.mu.RLock()
	defer n.mu.RUnlock()
	return n.down[to] || n.down[from] || n.cut[[2]string{from, to}]
}

// T is the transport of one node.
type T struct {
	Net   *Net
	From  string
	Inner backend.DistTransport // what carries the calls; the in-process transport if nil
}

func (t *T) inner() backend.DistTransport {
	if t.Inner != nil {
		return t.Inner
	}
	return t.Net.In
}

func (t *T) do(ctx context.Context, c Call, fn func() error) error {
	c.From = t.From
	t.Net.Calls.Add(1)
	var fail, lose bool
	var delay time.Duration
	if fn := t.Net.disturb.Load(); fn != nil {
		fail, lose, delay = (*fn)(c)
	}
	if delay > 0 {
		select {
		case <-time.After(delay):
		case <-ctx.Done():
			c.Err = ctx.Err()
			t.watch(c)
			return c.Err
		}
	}
	switch {
	case fail || t.Net.blocked(t.From, c.To):
		c.Err = sentinel.ErrBackendNotFound
		if t.Net.Generic.Load() {
			c.Err = ErrLink
		}
	default:
		c.Reached = true
		c.Err = fn()
		if lose && c.Err == nil {
			c.Err = ErrLink
		}
	}
	t.watch(c)
	return c.Err
}

func (t *T) watch(c Call) {
	if fn := t.Net.watch.Load(); fn != nil {
		(*fn)(c)
	}
}

func (t *T) ForwardSet(ctx context.Context, node string, it *cache.Item, replicate bool) error {
	cp := *it // the wire carries a copy
	return t.do(ctx, Call{To: node, Op: "set", Key: it.Key, Replicate: replicate, Item: cp}, func() error {
		return t.inner().ForwardSet(ctx, node, &cp, replicate)
	})
}

func (t *T) ForwardGet(ctx context.Context, node, key string) (*cache.Item, bool, error) {
	var it *cache.Item
	var ok bool
	err := t.do(ctx, Call{To: node, Op: "get", Key: key}, func() error {
		var err error
		it, ok, err = t.inner().ForwardGet(ctx, node, key)
		return err
	})
	if err != nil {
		return nil, false, err
	}
	return it, ok, nil
}

func (t *T) ForwardRemove(ctx context.Context, node, key string, replicate bool) error {
	return t.do(ctx, Call{To: node, Op: "remove", Key: key, Replicate: replicate}, func() error {
		return t.inner().ForwardRemove(ctx, node, key, replicate)
	})
}

type relayKey struct{}

func (t *T) Health(ctx context.Context, node string) error {
	_, relayed := ctx.Value(relayKey{}).(bool)
	return t.do(ctx, Call{To: node, Op: "health", Relayed: relayed}, func() error { return t.inner().Health(ctx, node) })
}

func (t *T) IndirectHealth(ctx context.Context, relay, target string) error {
	return t.do(ctx, Call{To: relay, Op: "indirect", Key: target}, func() error {
		return t.inner().IndirectHealth(context.WithValue(ctx, relayKey{}, true), relay, target)
	})
}

func (t *T) Gossip(ctx context.Context, node string, m []backend.GossipMember) error {
	return t.do(ctx, Call{To: node, Op: "gossip"}, func() error { return t.inner().Gossip(ctx, node, m) })
}

func (t *T) FetchMerkle(ctx context.Context, node string) (*backend.MerkleTree, error) {
	var tree *backend.MerkleTree
	err := t.do(ctx, Call{To: node, Op: "merkle"}, func() error {
		var err error
		tree, err = t.inner().FetchMerkle(ctx, node)
		return err
	})
	return tree, err
}

func (t *T) ListKeys(ctx context.Context, node, pattern string) ([]string, error) {
	var ks []string
	err := t.do(ctx, Call{To: node, Op: "keys", Key: pattern}, func() error {
		var err error
		ks, err = t.inner().ListKeys(ctx, node, pattern)
		return err
	})
	return ks, err
}

// Node is one member.
type Node struct {
	ID string
	DM *backend.DistMemory
	M  *cluster.Membership
}

// Cluster is a set of nodes, each with its own view of the membership.
type Cluster struct {
	Net   *Net
	Nodes []*Node
	RF    int
	VN    int
	addrs map[int]string
}

// Conf describes a cluster to build.
type Conf struct {
	N, RF, VN int
	Plain     bool // use the in-process transport itself, unwatched
	Shared    bool // one membership for all, as some embedders do
	HTTP      bool // nodes talk over loopback HTTP, through the disturbable net
	Limits    backend.DistHTTPLimits
	Auth      backend.DistHTTPAuth
	Opts      func(i int) []backend.DistMemoryOption
	Member    func(id string, m *cluster.Membership) // sees a node's membership before anything else does
}

// New builds and starts the cluster.
func New(c Conf) *Cluster {
	cl := Prepare(c)
	cl.Fill(c)
	return cl
}

// Prepare makes the cluster without its nodes, so that the net can be watched from the start.
func Prepare(c Conf) *Cluster {
	if c.VN == 0 {
		c.VN = 16
	}
	cl := &Cluster{Net: NewNet(), RF: c.RF, VN: c.VN, addrs: map[int]string{}}
	if c.HTTP {
		cl.Reserve(c.N)
	}
	return cl
}

// Fill starts the nodes.
func (cl *Cluster) Fill(c Conf) {
	for i := 0; i < c.N; i++ {
		cl.Add(c, i, c.N)
	}
}

// ID names the i-th node.
func ID(i int) string { return fmt.Sprintf("n%d", i) }

// Add starts node i, which knows the first `known` nodes.
func (cl *Cluster) Add(c Conf, i, known int) *Node {
	id := ID(i)
	var m *cluster.Membership
	if c.Shared && len(cl.Nodes) > 0 {
		m = cl.Nodes[0].M
	} else {
		m = cluster.NewMembership(cluster.NewRing(cluster.WithReplication(cl.RF), cluster.WithVirtualNodes(cl.VN)))
	}
	if c.Member != nil {
		c.Member(id, m)
	}
	for j := 0; j < known; j++ {
		if j != i {
			m.Upsert(cluster.NewNode(ID(j), cl.Addr(j)))
		}
	}
	opts := []backend.DistMemoryOption{
		backend.WithDistMembership(m, cluster.NewNode(id, cl.Addr(i))),
		backend.WithDistReplication(cl.RF), backend.WithDistVirtualNodes(cl.VN),
	}
	switch {
	case c.HTTP:
		opts = append(opts, backend.WithDistHTTPLimits(c.Limits), backend.WithDistHTTPAuth(c.Auth))
	case c.Plain:
		opts = append(opts, backend.WithDistTransport(cl.Net.In))
	default:
		opts = append(opts, backend.WithDistTransport(&T{Net: cl.Net, From: id}))
	}
	if c.Opts != nil {
		opts = append(opts, c.Opts(i)...)
	}
	b, err := backend.NewDistMemory(context.Background(), opts...)
	if err != nil {
		panic(err)
	}
	n := &Node{ID: id, DM: b.(*backend.DistMemory), M: m}
	if c.HTTP && !c.Plain {
		n.DM.SetTransport(&T{Net: cl.Net, From: id, Inner: cl.HTTPTransport(c, n)})
	}
	cl.Net.In.Register(n.DM)
	cl.Nodes = append(cl.Nodes, n)
	return n
}

// Addr is the address the i-th node is known by (nothing listens there unless the cluster talks HTTP).
func (cl *Cluster) Addr(i int) string {
	if a := cl.addrs[i]; a != "" {
		return a
	}
	return fmt.Sprintf("127.0.0.1:%d", 20000+i)
}

// Reserve picks free loopback addresses for the first n nodes.
func (cl *Cluster) Reserve(n int) {
	var held []net.Listener
	for i := 0; i < n; i++ {
		if cl.addrs[i] != "" {
			continue
		}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		cl.addrs[i] = ln.Addr().String()
		held = append(held, ln)
	}
	for _, ln := range held {
		_ = ln.Close()
	}
}

// HTTPTransport is the product's own HTTP transport, resolving peers as a node does.
func (cl *Cluster) HTTPTransport(c Conf, n *Node) backend.DistTransport {
	return backend.NewDistHTTPTransportWithAuth(c.Limits, c.Auth, func(id string) (string, bool) {
		for _, p := range n.M.List() {
			if string(p.ID) == id {
				return "http://" + p.Address, true
			}
		}
		return "", false
	})
}

// Stop stops every node.
func (cl *Cluster) Stop() {
	for _, n := range cl.Nodes {
		_ = n.DM.Stop(context.Background())
	}
}

// Node by id.
func (cl *Cluster) Node(id string) *Node {
	for _, n := range cl.Nodes {
		if n.ID == id {
			return n
		}
	}
	return nil
}

// Owners of a key as the first node sees them.
func (cl *Cluster) Owners(key string) []string {
	var s []string
	for _, o := range cl.Nodes[0].M.Ring().Lookup(key) {
		s = append(s, string(o))
	}
	return s
}

// Local returns the copy a node holds, read through the transport's own door.
func (cl *Cluster) Local(id, key string) (*cache.Item, bool) {
	it, ok, err := cl.Net.In.ForwardGet(context.Background(), id, key)
	if err != nil {
		return nil, false
	}
	return it, ok
}

// Item makes an item to store.
func Item(key string, v any, ttl time.Duration) *cache.Item {
	return &cache.Item{Key: key, Value: v, Expiration: ttl, LastAccess: time.Now()}
}

// Any picks a node.
func (cl *Cluster) Any(g *rand.Rand) *Node { return cl.Nodes[g.Intn(len(cl.Nodes))] }
