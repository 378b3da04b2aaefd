From 4587271cf5a0bc1811c5607d422e46aeff7184c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/84] fix: install the rebuilt ring under the membership lock

---
 internal/cluster/membership.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..0c52f12 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -69,13 +69,16 @@ func (m *Membership) Upsert(n *Node) {
 		}
 	}
 
+	// Build under the lock: two racing mutations must install their rings
+	// in the order they mutated the member map, or the older one sticks.
+	m.ring.Build(nodes)
+
 	version := m.ver.Next()
 	observers := m.observers
 	id := n.ID
 	state := n.State
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	notify(observers, id, state, version)
 }
 
@@ -121,11 +124,12 @@ func (m *Membership) Remove(id NodeID) bool {
 		}
 	}
 
+	m.ring.Build(nodes) // under the lock, see Upsert
+
 	version := m.ver.Next()
 	observers := m.observers
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
-- 
2.43.0


From 751b6469bc57a8ff25e74bb9285b1498ff8b7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 02/84] fix: rebuild the ring when a member enters or leaves
 the dead state

---
 internal/cluster/membership.go | 41 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 0c52f12..307c94c 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -62,16 +62,9 @@ func (m *Membership) Upsert(n *Node) {
 	n.LastSeen = time.Now()
 	m.nodes[n.ID] = n
 
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes from ring ownership
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
-
 	// Build under the lock: two racing mutations must install their rings
 	// in the order they mutated the member map, or the older one sticks.
-	m.ring.Build(nodes)
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
@@ -117,14 +110,7 @@ func (m *Membership) Remove(id NodeID) bool {
 
 	delete(m.nodes, id)
 
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
-
-	m.ring.Build(nodes) // under the lock, see Upsert
+	m.rebuildRingLocked() // under the lock, see Upsert
 
 	version := m.ver.Next()
 	observers := m.observers
@@ -189,9 +175,14 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 
 	n.Incarnation++
 
+	deadness := n.State == NodeDead || state == NodeDead
 	n.State = state
 	n.LastSeen = time.Now()
 
+	if deadness { // entering or leaving NodeDead changes ring ownership
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -231,9 +222,14 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	n.Incarnation++
 
+	wasDead := n.State == NodeDead
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
+	if wasDead { // leaving NodeDead restores ring ownership
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -244,6 +240,19 @@ func (m *Membership) Refute(id NodeID) bool {
 	return true
 }
 
+// rebuildRingLocked rebuilds the ring from the current non-dead members.
+// The caller holds m.mu.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes { // exclude dead nodes from ring ownership
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // notify invokes each observer in registration order with the
 // resolved state and version. Pulled out so the call sites read
 // "mutate, unlock, notify" uniformly without inline loops.
-- 
2.43.0


From 6b9c3e34a98513f5a9c255feec81cdbd442a94b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 03/84] fix: deliver bus events in version order with
 concurrent publishers

---
 internal/eventbus/bus.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..bb76a6a 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,11 +127,12 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
-	// monotonic across concurrent publishers.
+	// Stamp and deliver the event under the exclusive lock so every
+	// subscriber sees versions in increasing order; under the read
+	// lock two publishers could interleave stamping and sending.
 	version := b.version.Add(1)
 
 	evt.Version = version
-- 
2.43.0


From a47d399aaa137e3ae6fce22b6e98cdb99324224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 04/84] fix: end the bus subscription watcher on unsubscribe

---
 internal/eventbus/bus.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index bb76a6a..09c94ab 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -94,8 +94,12 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 
 	var once sync.Once
 
+	done := make(chan struct{})
+
 	unsub := func() {
 		once.Do(func() {
+			close(done)
+
 			b.mu.Lock()
 			delete(b.subscribers, id)
 			b.mu.Unlock()
@@ -104,14 +108,14 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 	}
 
 	// Goroutine that watches ctx; runs until either ctx cancels
-	// (then we unsub) or someone else has already unsubbed (then
-	// the goroutine exits via the closed channel write inside
-	// once.Do — actually, ctx.Done() being a channel means we
-	// just block until cancellation; the once.Do guards the
-	// double-unsub case).
+	// (then we unsub) or the caller unsubscribed (then done is
+	// closed, so a never-canceled ctx cannot leak the goroutine).
 	go func() {
-		<-ctx.Done()
-		unsub()
+		select {
+		case <-ctx.Done():
+			unsub()
+		case <-done:
+		}
 	}()
 
 	return sub.ch, unsub
-- 
2.43.0


From faa1e194dcf3acd597e7f81233d4d4c729315994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 05/84] fix: median of large samples no longer overflows

---
 pkg/stats/histogramcollector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index ee5270e..5607936 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -282,7 +282,8 @@ func medianOf(sorted []int64) float64 {
 		return float64(sorted[n/2])
 	}
 
-	return float64(sorted[n/2-1]+sorted[n/2]) / 2
+	// Halve before adding: the int64 sum of two large samples overflows.
+	return float64(sorted[n/2-1])/2 + float64(sorted[n/2])/2
 }
 
 // percentileOf returns the pth percentile of a sorted slice using
-- 
2.43.0


From af1e59f2248515daab7621647500e502dd24fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 06/84] fix: a NaN percentile no longer panics

---
 pkg/stats/histogramcollector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 5607936..7d819b4 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -295,7 +295,7 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	}
 
 	switch {
-	case percentile <= 0:
+	case percentile <= 0, math.IsNaN(percentile):
 		return float64(sorted[0])
 	case percentile >= 1:
 		return float64(sorted[n-1])
-- 
2.43.0


From 82b7eca2e9d754f25099cab997adc0edcc935cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 07/84] fix: variance is computed around the mean of the window
 it covers

---
 pkg/stats/histogramcollector.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 7d819b4..3e3da3a 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -189,7 +189,7 @@ func (c *HistogramStatsCollector) GetStats() Stats {
 			Values:   sorted,
 			Count:    int(count),
 			Sum:      sum,
-			Variance: varianceOf(sorted, mean),
+			Variance: varianceOf(sorted, meanOf(sorted)),
 		}
 
 		return true
@@ -309,6 +309,21 @@ func percentileOf(sorted []int64, percentile float64) float64 {
 	return float64(sorted[idx])
 }
 
+// meanOf returns the mean of values. Empty slice returns 0.
+func meanOf(values []int64) float64 {
+	if len(values) == 0 {
+		return 0
+	}
+
+	var acc float64
+
+	for _, value := range values {
+		acc += float64(value)
+	}
+
+	return acc / float64(len(values))
+}
+
 // varianceOf returns the population variance of values around mean.
 func varianceOf(values []int64, mean float64) float64 {
 	if len(values) == 0 {
-- 
2.43.0


From 5e736278e32a856cb577c1118b8759e24a24e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 08/84] fix: statistics read while the first sample is recorded
 show real extremes

---
 pkg/stats/histogramcollector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 3e3da3a..7f07831 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -240,7 +240,6 @@ const errCorruptStatsMap = "histogramcollector: stats map contains non-*statShar
 func (c *HistogramStatsCollector) record(key string, value int64) {
 	shard := c.shard(key)
 
-	shard.count.Add(1)
 	shard.sum.Add(value)
 
 	for {
@@ -257,6 +256,10 @@ func (c *HistogramStatsCollector) record(key string, value int64) {
 		}
 	}
 
+	// Count last: a reader that sees a non-zero count must also see real
+	// extremes, not the initial sentinels.
+	shard.count.Add(1)
+
 	if !shard.samplesMu.TryLock() {
 		return
 	}
-- 
2.43.0


From f63a5e65a175450dae3a0db0fee819c7fad0438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 09/84] fix: decode into the caller's value when it is an
 interface

---
 internal/libs/serializer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/libs/serializer/json.go b/internal/libs/serializer/json.go
index c14aec8..4d8f6a7 100644
--- a/internal/libs/serializer/json.go
+++ b/internal/libs/serializer/json.go
@@ -29,7 +29,7 @@ func (*DefaultJSONSerializer) Marshal(v any) ([]byte, error) { // receiver omitt
 // @param data
 // @param v.
 func (*DefaultJSONSerializer) Unmarshal(data []byte, v any) error { // receiver omitted (unused)
-	err := json.Unmarshal(data, &v)
+	err := json.Unmarshal(data, v)
 	if err != nil {
 		return ewrap.Wrap(err, "failed to unmarshal json")
 	}
-- 
2.43.0


From 26d0debf4a596019a6c5438f269542bc40d0f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 10/84] fix: redis TLS and dial timeout options take effect

The custom dialer replaced go-redis' own, which is what applies TLSConfig and
DialTimeout: a store configured for TLS talked plaintext.
---
 pkg/backend/redis/store.go        | 9 ---------
 pkg/backend/rediscluster/store.go | 8 +-------
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/pkg/backend/redis/store.go b/pkg/backend/redis/store.go
index 5a43ff9..54907f3 100644
--- a/pkg/backend/redis/store.go
+++ b/pkg/backend/redis/store.go
@@ -1,8 +1,6 @@
 package redis
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -21,13 +19,6 @@ type Store struct {
 func New(opts ...Option) (*Store, error) {
 	// Setup redis client
 	opt := &redis.Options{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{
-				Timeout: constants.RedisDialTimeout,
-			}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		DB:           0,
 		MaxRetries:   constants.RedisClientMaxRetries,
 		DialTimeout:  constants.RedisDialTimeout,
diff --git a/pkg/backend/rediscluster/store.go b/pkg/backend/rediscluster/store.go
index be05d27..7802d21 100644
--- a/pkg/backend/rediscluster/store.go
+++ b/pkg/backend/rediscluster/store.go
@@ -1,8 +1,6 @@
 package rediscluster
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -19,12 +17,8 @@ type Store struct {
 // New creates a redis cluster store instance with given options.
 func New(opts ...Option) (*Store, error) {
 	opt := &redis.ClusterOptions{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{Timeout: constants.RedisDialTimeout}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		MaxRetries:   constants.RedisClientMaxRetries,
+		DialTimeout:  constants.RedisDialTimeout,
 		ReadTimeout:  constants.RedisClientReadTimeout,
 		WriteTimeout: constants.RedisClientWriteTimeout,
 		PoolSize:     constants.RedisClientPoolSize,
-- 
2.43.0


From 15101cb295baf200fd67f1b4675b3289921ee779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 11/84] fix: redis Remove and Clear return nil on success

ewrap.Wrap(nil) is a nil *Error: returned as an error interface it compared
non-nil, so every successful removal looked failed.
---
 pkg/backend/redis.go         | 6 +++++-
 pkg/backend/redis_cluster.go | 6 +++++-
 pkg/backend/redis_common.go  | 5 ++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 81dd9b5..a53ccfc 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -147,5 +147,9 @@ func (cacheBackend *Redis) Remove(ctx context.Context, keys ...string) error {
 func (cacheBackend *Redis) Clear(ctx context.Context) error {
 	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	}
+
+	return nil
 }
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b720814..cbb39db 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -131,5 +131,9 @@ func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) er
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
 	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	}
+
+	return nil
 }
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index d48a3f9..a88098b 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -139,6 +139,9 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 	}
 
 	_, err = pipe.Exec(ctx)
+	if err != nil {
+		return ewrap.Wrap(err, "executing pipeline")
+	}
 
-	return ewrap.Wrap(err, "executing pipeline")
+	return nil
 }
-- 
2.43.0


From df2c803d9d959e2c2638914ee290072ef95f2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 12/84] fix: redis backends default to a serializer that works

msgpack is disabled, so a backend built without an explicit serializer could
not store anything.
---
 pkg/backend/redis.go         | 4 ++--
 pkg/backend/redis_cluster.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index a53ccfc..9dca53f 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -55,8 +55,8 @@ func NewRedis(redisOptions ...Option[Redis]) (IBackend[Redis], error) {
 	if rb.Serializer == nil {
 		var err error
 
-		// Set a the serializer to default to `msgpack`
-		rb.Serializer, err = serializer.New("msgpack")
+		// Default to the JSON serializer (msgpack is currently disabled)
+		rb.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index cbb39db..40e9dce 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -50,7 +50,7 @@ func NewRedisCluster(redisOptions ...Option[RedisCluster]) (IBackend[RedisCluste
 	if rc.Serializer == nil {
 		var err error
 
-		rc.Serializer, err = serializer.New("msgpack")
+		rc.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9f7ee257fe0616f8131b28b9d1e152470c251fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 13/84] fix: redis items live exactly as long as they were set
 to

An overwrite without expiration inherited the previous item's TTL, and
lifetimes were truncated to whole seconds.
---
 pkg/backend/redis_common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index a88098b..d6bac20 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -51,7 +51,10 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 	pipe.SAdd(ctx, keysSetName, item.Key)
 
 	if item.Expiration > 0 {
-		pipe.Expire(ctx, item.Key, item.Expiration)
+		pipe.PExpire(ctx, item.Key, item.Expiration)
+	} else {
+		// Overwriting a hash keeps its TTL: drop the previous item's.
+		pipe.Persist(ctx, item.Key)
 	}
 
 	_, err = pipe.Exec(ctx)
-- 
2.43.0


From 82140c019191b14bfb96d0ca3002288fd665a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 14/84] fix: the redis cluster backend works across slots and
 nodes

Set and Remove used a transaction (and a multi-key DEL) over keys of different
slots, which a cluster refuses, and Clear flushed a single node.
---
 pkg/backend/redis.go         |  4 ++--
 pkg/backend/redis_cluster.go |  8 +++++---
 pkg/backend/redis_common.go  | 18 ++++++++----------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 9dca53f..abdaa12 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -130,7 +130,7 @@ func (cacheBackend *Redis) Get(ctx context.Context, key string) (*cache.Item, bo
 
 // Set stores the Item in the cacheBackend.
 func (cacheBackend *Redis) Set(ctx context.Context, item *cache.Item) error {
-	return redisSet(ctx, cacheBackend.rdb, cacheBackend.keysSetName, item, cacheBackend.Serializer)
+	return redisSet(ctx, cacheBackend.rdb.TxPipeline(), cacheBackend.keysSetName, item, cacheBackend.Serializer)
 }
 
 // List returns a list of all the items in the cacheBackend that match the given filter options.
@@ -140,7 +140,7 @@ func (cacheBackend *Redis) List(ctx context.Context, filters ...IFilter) ([]*cac
 
 // Remove removes an item from the cache with the given key.
 func (cacheBackend *Redis) Remove(ctx context.Context, keys ...string) error {
-	return redisRemove(ctx, cacheBackend.rdb, cacheBackend.keysSetName, keys...)
+	return redisRemove(ctx, cacheBackend.rdb.TxPipeline(), cacheBackend.keysSetName, keys...)
 }
 
 // Clear removes all items from the cache.
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index 40e9dce..f32440a 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -114,7 +114,7 @@ func (cacheBackend *RedisCluster) Get(ctx context.Context, key string) (*cache.I
 
 // Set stores an item in the cluster.
 func (cacheBackend *RedisCluster) Set(ctx context.Context, item *cache.Item) error {
-	return redisSet(ctx, cacheBackend.rdb, cacheBackend.keysSetName, item, cacheBackend.Serializer)
+	return redisSet(ctx, cacheBackend.rdb.Pipeline(), cacheBackend.keysSetName, item, cacheBackend.Serializer)
 }
 
 // List returns items matching optional filters.
@@ -124,12 +124,14 @@ func (cacheBackend *RedisCluster) List(ctx context.Context, filters ...IFilter)
 
 // Remove deletes the specified keys.
 func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) error {
-	return redisRemove(ctx, cacheBackend.rdb, cacheBackend.keysSetName, keys...)
+	return redisRemove(ctx, cacheBackend.rdb.Pipeline(), cacheBackend.keysSetName, keys...)
 }
 
 // Clear flushes the database.
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
-	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
+	err := cacheBackend.rdb.ForEachMaster(ctx, func(ctx context.Context, master *redis.Client) error {
+		return master.FlushDB(ctx).Err()
+	})
 
 	if err != nil {
 		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index d6bac20..6c29a49 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -13,14 +13,11 @@ import (
 
 // redisCmd abstracts the subset of go-redis client API we need.
 type redisCmd interface {
-	TxPipeline() redis.Pipeliner
 	Pipelined(ctx context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error)
 	SMembers(ctx context.Context, key string) *redis.StringSliceCmd
 }
 
-func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *cache.Item, ser serializer.ISerializer) error {
-	pipe := client.TxPipeline()
-
+func redisSet(ctx context.Context, pipe redis.Pipeliner, keysSetName string, item *cache.Item, ser serializer.ISerializer) error {
 	// Validate item
 	err := item.Valid()
 	if err != nil {
@@ -128,17 +125,18 @@ func redisList(
 	return items, err
 }
 
-func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
-	pipe := client.TxPipeline()
-
+func redisRemove(ctx context.Context, pipe redis.Pipeliner, keysSetName string, keys ...string) error {
 	_, err := pipe.SRem(ctx, keysSetName, keys).Result()
 	if err != nil {
 		return ewrap.Wrap(err, "removing keys from set")
 	}
 
-	_, err = pipe.Del(ctx, keys...).Result()
-	if err != nil {
-		return ewrap.Wrap(err, "removing keys")
+	// One DEL per key: on a cluster the keys live in different slots.
+	for _, key := range keys {
+		_, err = pipe.Del(ctx, key).Result()
+		if err != nil {
+			return ewrap.Wrap(err, "removing keys")
+		}
 	}
 
 	_, err = pipe.Exec(ctx)
-- 
2.43.0


From 58efecdf4527bb8ce0cd3d19bb5eab8fe3542650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 15/84] fix: a failing filter fails the redis listing

A later filter overwrote the error of an earlier one, so an invalid sort field
followed by a filter returned an empty list and no error.
---
 pkg/backend/redis_common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 6c29a49..6190889 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -119,6 +119,9 @@ func redisList(
 	if len(filters) > 0 {
 		for _, filter := range filters {
 			items, err = filter.ApplyFilter(constants.RedisBackend, items)
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 43bcc1f65f5c4cb4ac12a4ef2533d0d7178a7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 16/84] fix: listings can be sorted by size

SortBySize is a declared sorting field that every backend refused as invalid.
---
 pkg/backend/filters.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/backend/filters.go b/pkg/backend/filters.go
index 269a1a1..ce6261f 100644
--- a/pkg/backend/filters.go
+++ b/pkg/backend/filters.go
@@ -67,6 +67,14 @@ func (f sortByFilter) ApplyFilter(_ string, items []*cache.Item) ([]*cache.Item,
 			},
 		}
 
+	case constants.SortBySize.String():
+		sorter = &itemSorter{
+			items: items,
+			less: func(i, j *cache.Item) bool {
+				return i.Size < j.Size
+			},
+		}
+
 	case constants.SortByLastAccess.String():
 		sorter = &itemSorter{
 			items: items,
-- 
2.43.0


From ea6fa1b26344124bbe76f4fc8e5c64b94d942322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 17/84] fix: listing a distributed backend applies the filters

Sorting and filtering options were silently ignored.
---
 pkg/backend/dist_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..00768d1 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -27,6 +27,7 @@ import (
 	"go.opentelemetry.io/otel/trace/noop"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
+	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/eventbus"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
@@ -1114,8 +1115,8 @@ func (dm *DistMemory) Set(ctx context.Context, item *cache.Item) error {
 
 // --- Consistency helper methods. ---
 
-// List aggregates items (no ordering, then filters applied per interface contract not yet integrated; kept simple);.
-func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, error) {
+// List aggregates the items of every shard, then applies the filters in order.
+func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	items := make([]*cache.Item, 0, listPrealloc)
 	for _, s := range dm.shards {
 		for _, it := range s.items.All() {
@@ -1125,6 +1126,15 @@ func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, erro
 		}
 	}
 
+	var err error
+
+	for _, filter := range filters {
+		items, err = filter.ApplyFilter(constants.DistMemoryBackend, items)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	return items, nil
 }
 
-- 
2.43.0


From 71beead1961225528807d38a2caf06dc31076088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 18/84] fix: refuse auth configs with more than one YAML
 document

Only the first document was read, so identities declared after a separator
(and any syntax error there) were silently dropped.
---
 pkg/httpauth/loader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/httpauth/loader.go b/pkg/httpauth/loader.go
index 11c6e16..c4838f3 100644
--- a/pkg/httpauth/loader.go
+++ b/pkg/httpauth/loader.go
@@ -1,7 +1,9 @@
 package httpauth
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/hyp3rd/ewrap"
@@ -29,6 +31,8 @@ const (
 var (
 	errEmptyScopes  = ewrap.New("scopes is empty; at least one of read/write/admin required")
 	errUnknownScope = ewrap.New("unknown scope (valid: read, write, admin)")
+
+	errTrailingDocument = ewrap.New("unexpected content after the first YAML document")
 )
 
 // fileSchema is the YAML wire shape of HYPERCACHE_AUTH_CONFIG.
@@ -166,6 +170,12 @@ func loadFromFile(path string) (Policy, error) {
 		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, err)
 	}
 
+	// A second YAML document would be silently ignored: refuse it.
+	err = dec.Decode(new(yaml.Node))
+	if !errors.Is(err, io.EOF) {
+		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, errTrailingDocument)
+	}
+
 	policy, err := schemaToPolicy(schema)
 	if err != nil {
 		return Policy{}, fmt.Errorf("%w: %s: %w", ErrInvalidPolicy, path, err)
-- 
2.43.0


From da7795a9de86de3227829caf1166954661759f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 19/84] fix: refuse auth policies that map one credential to
 two identities

With the same token, username or subject declared twice, list order decided
which scopes applied.
---
 pkg/httpauth/policy.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pkg/httpauth/policy.go b/pkg/httpauth/policy.go
index 8bbc4bd..09b08ef 100644
--- a/pkg/httpauth/policy.go
+++ b/pkg/httpauth/policy.go
@@ -235,6 +235,10 @@ func (p Policy) IsConfigured() bool {
 // runtime-error. Loaders should call this once at startup and exit
 // non-zero on failure, never silently continue.
 func (p Policy) Validate() error {
+	seenTokens := make(map[string]struct{}, len(p.Tokens))
+	seenUsers := make(map[string]struct{}, len(p.BasicIdentities))
+	seenCNs := make(map[string]struct{}, len(p.CertIdentities))
+
 	for _, t := range p.Tokens {
 		if t.Token == "" {
 			return fmt.Errorf("%w: token identity %q has empty token", sentinel.ErrInsecureAuthConfig, t.ID)
@@ -243,6 +247,10 @@ func (p Policy) Validate() error {
 		if t.ID == "" {
 			return fmt.Errorf("%w: token identity has empty ID (token redacted)", sentinel.ErrInsecureAuthConfig)
 		}
+
+		if !addUnique(seenTokens, t.Token) {
+			return fmt.Errorf("%w: token identity %q repeats the token of another identity", sentinel.ErrInsecureAuthConfig, t.ID)
+		}
 	}
 
 	for _, b := range p.BasicIdentities {
@@ -250,17 +258,34 @@ func (p Policy) Validate() error {
 		if err != nil {
 			return err
 		}
+
+		if !addUnique(seenUsers, b.Username) {
+			return fmt.Errorf("%w: basic username %q is declared twice", sentinel.ErrInsecureAuthConfig, b.Username)
+		}
 	}
 
 	for _, c := range p.CertIdentities {
 		if c.SubjectCN == "" {
 			return fmt.Errorf("%w: cert identity has empty subject_cn", sentinel.ErrInsecureAuthConfig)
 		}
+
+		if !addUnique(seenCNs, c.SubjectCN) {
+			return fmt.Errorf("%w: subject_cn %q is declared twice", sentinel.ErrInsecureAuthConfig, c.SubjectCN)
+		}
 	}
 
 	return nil
 }
 
+// addUnique records v and reports whether it was new. One credential must map
+// to one identity: with duplicates, list order would decide who the caller is.
+func addUnique(seen map[string]struct{}, v string) bool {
+	_, dup := seen[v]
+	seen[v] = struct{}{}
+
+	return !dup
+}
+
 // validateBasicIdentity enforces the per-row invariants on one
 // BasicIdentity. Extracted from Validate so the parent stays under
 // the cognitive-complexity cap; the cap exists for reviewer comfort
-- 
2.43.0


From 9b58b73cc1118b004e1624ba27bf98819fd9d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 20/84] fix: refuse bcrypt hashes with a malformed tail

bcrypt.Cost reads only the prefix, so a typo further on, or a trailing newline,
passed validation and silently locked the user out.
---
 pkg/httpauth/policy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/httpauth/policy.go b/pkg/httpauth/policy.go
index 09b08ef..49b2bc2 100644
--- a/pkg/httpauth/policy.go
+++ b/pkg/httpauth/policy.go
@@ -28,6 +28,7 @@ import (
 	"crypto/tls"
 	"encoding/base64"
 	"fmt"
+	"regexp"
 	"slices"
 	"strings"
 
@@ -286,6 +287,10 @@ func addUnique(seen map[string]struct{}, v string) bool {
 	return !dup
 }
 
+// bcryptShape is the full shape of a bcrypt hash: bcrypt.Cost reads only its
+// prefix, and a hash with a mangled or over-long tail never matches a password.
+var bcryptShape = regexp.MustCompile(`^\$2[abxy]?\$[0-9]{2}\$[./A-Za-z0-9]{53}$`)
+
 // validateBasicIdentity enforces the per-row invariants on one
 // BasicIdentity. Extracted from Validate so the parent stays under
 // the cognitive-complexity cap; the cap exists for reviewer comfort
@@ -309,7 +314,7 @@ func validateBasicIdentity(b BasicIdentity) error {
 	// Caught here so a typo in the YAML fails loudly at boot rather
 	// than silently rejecting every Basic auth attempt at runtime.
 	_, err := bcrypt.Cost(b.PasswordBcrypt)
-	if err != nil {
+	if err != nil || !bcryptShape.Match(b.PasswordBcrypt) {
 		return fmt.Errorf("%w: basic identity %q password_bcrypt is not a valid bcrypt hash", sentinel.ErrInsecureAuthConfig, b.Username)
 	}
 
-- 
2.43.0


From 6d1f1614978ce743018736e82a8e4f6c7f798d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 21/84] fix: closing a client from several goroutines does not
 panic

---
 pkg/client/client.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..97ef01f 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -58,6 +58,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	closeOnce       sync.Once
 
 	logger *slog.Logger
 }
@@ -127,12 +128,8 @@ func (c *Client) Endpoints() []string {
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		// Close may be called from several goroutines at once.
+		c.closeOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From 6ad9eebbc5e1b290194edc6a30e1e705728c9c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 22/84] fix: the last client auth option wins and keeps the
 caller's transport

---
 pkg/client/client.go  | 40 +++++++++++++++++++++++++---------------
 pkg/client/options.go | 18 +++++++-----------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 97ef01f..bf0bcd0 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -47,6 +47,11 @@ type Client struct {
 	// its Transport; WithHTTPClient replaces the whole thing.
 	http *http.Client
 
+	// base is the HTTP client without any auth layer. Auth options
+	// wrap it (never each other), so the last one applied decides
+	// the credentials and a caller-supplied Transport is kept.
+	base *http.Client
+
 	// failoverRand is the source we shuffle the endpoint order
 	// from. Seeded once at construction so different Clients in
 	// the same process don't synchronize on each other's failover
@@ -89,9 +94,12 @@ func New(seeds []string, opts ...Option) (*Client, error) {
 		return nil, ErrNoEndpoints
 	}
 
+	base := &http.Client{Timeout: defaultHTTPTimeout}
+
 	c := &Client{
 		seeds:        cleaned,
-		http:         &http.Client{Timeout: defaultHTTPTimeout},
+		http:         base,
+		base:         base,
 		failoverRand: newFailoverShuffler(),
 		logger:       slog.New(slog.DiscardHandler),
 	}
@@ -321,22 +329,25 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // bearerAuthTransport returns a RoundTripper that injects the
 // given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
-	return bearerLikeAuthTransport("Bearer " + token)
+func bearerAuthTransport(base http.RoundTripper, token string) http.RoundTripper {
+	return bearerLikeAuthTransport(base, "Bearer "+token)
 }
 
 // bearerLikeAuthTransport returns a RoundTripper that injects the
-// given Authorization header value on every request. Used by both
+// given Authorization header value on every request and sends it
+// through base (nil means http.DefaultTransport). Used by both
 // bearer and Basic auth — both share the "set one header on every
 // request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
+func bearerLikeAuthTransport(base http.RoundTripper, headerValue string) http.RoundTripper {
+	if base == nil {
+		base = http.DefaultTransport
+	}
+
 	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
 		// Clone before mutating so the caller's copy stays clean.
 		cloned := req.Clone(req.Context())
 		cloned.Header.Set("Authorization", headerValue)
 
-		base := http.DefaultTransport
-
 		resp, err := base.RoundTrip(cloned)
 		if err != nil {
 			return nil, fmt.Errorf("client transport: %w", err)
@@ -346,16 +357,15 @@ func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
 	})
 }
 
-// httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
+// httpClientWithAuth returns a copy of base that sends through
+// authTransport. Everything else about base (Timeout, redirect
+// policy, cookie jar) is preserved; base itself is not modified.
 func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
-	if base != nil {
-		out.Timeout = base.Timeout
-	}
+	out := *base
+
+	out.Transport = authTransport
 
-	return out
+	return &out
 }
 
 // contextWithBaseHTTP returns a context carrying base as the
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..7e188cf 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -48,7 +48,7 @@ func WithBearerAuth(token string) Option {
 			return errBearerEmpty
 		}
 
-		c.http = httpClientWithAuth(c.http, bearerAuthTransport(token))
+		c.http = httpClientWithAuth(c.base, bearerAuthTransport(c.base.Transport, token))
 
 		return nil
 	}
@@ -72,7 +72,7 @@ func WithBasicAuth(username, password string) Option {
 
 		encoded := base64.StdEncoding.EncodeToString([]byte(username + ":" + password))
 
-		c.http = httpClientWithAuth(c.http, bearerLikeAuthTransport("Basic "+encoded))
+		c.http = httpClientWithAuth(c.base, bearerLikeAuthTransport(c.base.Transport, "Basic "+encoded))
 
 		return nil
 	}
@@ -99,15 +99,10 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 
 		// oauth2.NewClient returns an *http.Client whose Transport
 		// auto-injects Authorization: Bearer <token> and handles
-		// refresh transparently. Pass the existing Transport as
-		// the base so any prior WithHTTPClient (e.g. mTLS) is
-		// preserved.
-		base := c.http
-		if base == nil {
-			base = http.DefaultClient
-		}
-
-		baseCtx := contextWithBaseHTTP(base)
+		// refresh transparently. Pass the auth-free base so any
+		// prior WithHTTPClient (e.g. mTLS) is preserved and an
+		// earlier auth option's credentials are not.
+		baseCtx := contextWithBaseHTTP(c.base)
 
 		// Wrap the underlying TokenSource so rotations log via the
 		// client's slog.Logger. The wrapper holds a pointer to the
@@ -138,6 +133,7 @@ func WithHTTPClient(httpClient *http.Client) Option {
 		}
 
 		c.http = httpClient
+		c.base = httpClient
 
 		return nil
 	}
-- 
2.43.0


From cb840343cc98337b545330d2c1b4dbeb320d28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 23/84] fix: client failover stops when the caller's context
 has ended

---
 pkg/client/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/client/transport.go b/pkg/client/transport.go
index b34c7fe..3a9c954 100644
--- a/pkg/client/transport.go
+++ b/pkg/client/transport.go
@@ -148,6 +148,11 @@ func (c *Client) do(
 		)
 
 		lastErr = err
+
+		if ctx.Err() != nil {
+			// The caller is gone: no other endpoint can help.
+			return nil, lastErr
+		}
 	}
 
 	return nil, fmt.Errorf("%w (%d endpoints tried): %w", ErrAllEndpointsFailed, len(endpoints), lastErr)
-- 
2.43.0


From 39fe1bb554a8dec3b45c77241cc7be9a1ebb304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 24/84] fix: client falls back to its seeds when every
 discovered endpoint fails

---
 pkg/client/transport.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pkg/client/transport.go b/pkg/client/transport.go
index 3a9c954..0e34ce8 100644
--- a/pkg/client/transport.go
+++ b/pkg/client/transport.go
@@ -10,6 +10,7 @@ import (
 	"log/slog"
 	mathrand "math/rand/v2"
 	"net/http"
+	"slices"
 	"sync"
 )
 
@@ -100,7 +101,7 @@ func (c *Client) do(
 	body io.Reader,
 	headers map[string]string,
 ) (*http.Response, error) {
-	endpoints := c.currentEndpoints()
+	endpoints := c.failoverOrder()
 	if len(endpoints) == 0 {
 		return nil, ErrNoEndpoints
 	}
@@ -120,16 +121,9 @@ func (c *Client) do(
 		bodyBytes = buffered
 	}
 
-	c.failoverRandMu.Lock()
-
-	order := c.failoverRand.order(len(endpoints))
-	c.failoverRandMu.Unlock()
-
 	var lastErr error
 
-	for _, i := range order {
-		endpoint := endpoints[i]
-
+	for _, endpoint := range endpoints {
 		resp, err := c.tryOnce(ctx, endpoint, method, path, bodyBytes, headers)
 		if err == nil {
 			return resp, nil
@@ -158,6 +152,28 @@ func (c *Client) do(
 	return nil, fmt.Errorf("%w (%d endpoints tried): %w", ErrAllEndpointsFailed, len(endpoints), lastErr)
 }
 
+// failoverOrder returns the endpoints one request walks, in order and
+// without repetition: the working view shuffled, then the seeds the
+// view lacks. The seeds are the recovery anchor for when every
+// discovered endpoint is unreachable (e.g. during a partition).
+func (c *Client) failoverOrder() []string {
+	view := c.currentEndpoints()
+	out := make([]string, 0, len(view)+len(c.seeds))
+
+	c.failoverRandMu.Lock()
+	defer c.failoverRandMu.Unlock()
+
+	for _, group := range [][]string{view, c.seeds} {
+		for _, i := range c.failoverRand.order(len(group)) {
+			if !slices.Contains(out, group[i]) {
+				out = append(out, group[i])
+			}
+		}
+	}
+
+	return out
+}
+
 // tryOnce dispatches a single request against the given endpoint.
 // Errors here are either *StatusError (4xx/5xx response) or a raw
 // transport error (connection refused, TLS failure, etc.). The
-- 
2.43.0


From 914a459d939c5ecb3502e6bfff4a5035cc999136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 25/84] fix: a batch lifetime below one millisecond still
 expires

---
 pkg/client/batch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..9abd252 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,9 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// The wire counts milliseconds and reads 0 as "no expiry":
+			// a shorter lifetime must not become an unlimited one.
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From 0b4b53f834cf406203c5144f4452c1630eabdd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 26/84] fix: batch requests refuse keys JSON would alter

---
 pkg/client/batch.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 9abd252..8d52695 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"net/http"
 	"time"
+	"unicode/utf8"
 )
 
 // BatchSetItem is one entry in a BatchSet call. Each item carries
@@ -141,6 +142,11 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 
 	body := batchPutRequest{Items: make([]batchPutItemWire, 0, len(items))}
 	for _, it := range items {
+		err := checkBatchKey(it.Key)
+		if err != nil {
+			return nil, err
+		}
+
 		wire := batchPutItemWire{
 			Key:           it.Key,
 			Value:         base64.StdEncoding.EncodeToString(it.Value),
@@ -206,6 +212,13 @@ func (c *Client) BatchGet(ctx context.Context, keys []string) ([]BatchGetResult,
 		return []BatchGetResult{}, nil
 	}
 
+	for _, key := range keys {
+		err := checkBatchKey(key)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	body := batchGetRequest{Keys: keys}
 
 	encoded, err := json.Marshal(body)
@@ -263,6 +276,13 @@ func (c *Client) BatchDelete(ctx context.Context, keys []string) ([]BatchDeleteR
 		return []BatchDeleteResult{}, nil
 	}
 
+	for _, key := range keys {
+		err := checkBatchKey(key)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	body := batchDeleteRequest{Keys: keys}
 
 	encoded, err := json.Marshal(body)
@@ -305,6 +325,16 @@ func (c *Client) BatchDelete(ctx context.Context, keys []string) ([]BatchDeleteR
 
 // --- helpers ---
 
+// checkBatchKey refuses keys JSON cannot carry: encoding/json would
+// replace invalid UTF-8 and the batch would address a different key.
+func checkBatchKey(key string) error {
+	if !utf8.ValidString(key) {
+		return fmt.Errorf("%w: batch key %q is not valid UTF-8", ErrBadRequest, key)
+	}
+
+	return nil
+}
+
 // statusErrorFromBatch builds a *StatusError from a per-item batch
 // result's Code/Error fields. Returns nil when the per-item
 // operation succeeded — `success && code == ""` is the all-clear
-- 
2.43.0


From aa425c40feb75d56e21a14b0281be897c767ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 27/84] fix: a topology refresh answered with a non-success
 status is an error

---
 pkg/client/topology.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/client/topology.go b/pkg/client/topology.go
index 951273a..c91ddb1 100644
--- a/pkg/client/topology.go
+++ b/pkg/client/topology.go
@@ -79,6 +79,10 @@ func (c *Client) RefreshTopology(ctx context.Context) error {
 	}
 	defer closeBody(resp)
 
+	if resp.StatusCode != http.StatusOK {
+		return classifyResponse(resp)
+	}
+
 	var members clusterMembersResponse
 
 	decodeErr := json.NewDecoder(resp.Body).Decode(&members)
-- 
2.43.0


From 83182421533acc04b6508d27957c54e3731958b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 28/84] fix: the clock policy evicts a victim whenever it
 tracks one

---
 pkg/eviction/clock.go | 84 ++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 53 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..51882fb 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -37,37 +37,7 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.capacity == 0 {
-		return "", false
-	}
-
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // empty slot, advance
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		if item.AccessCount > 0 { // give second chance
-			item.AccessCount--
-
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		// evict
-		evictedKey := item.Key
-		delete(c.keys, evictedKey)
-		c.itemPoolManager.Put(item)
-
-		c.items[c.hand] = nil
-
-		return evictedKey, true
-	}
-
-	return "", false
+	return c.evictVictim()
 }
 
 // Set sets the item with the given key and value in the cache.
@@ -164,38 +134,46 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // skip empty
-			c.advanceHand()
+	if _, ok := c.evictVictim(); !ok {
+		return
+	}
 
-			continue
-		}
+	item := c.itemPoolManager.Get()
 
-		if item.AccessCount > 0 { // second chance
-			item.AccessCount--
+	item.Key = key
+	item.Value = value
+	item.AccessCount = 1
+	c.items[c.hand] = item
+	c.keys[key] = c.hand
+	c.advanceHand()
+}
 
-			c.advanceHand()
+// evictVictim sweeps until an item has used up its second chances, frees its
+// slot and leaves the hand on it. Every chance a sweep takes away was granted
+// by an earlier access, so it ends whenever anything is tracked at all.
+func (c *ClockAlgorithm) evictVictim() (string, bool) {
+	for len(c.keys) > 0 {
+		item := c.items[c.hand]
 
-			continue
-		}
+		switch {
+		case item == nil: // empty slot, advance
+		case item.AccessCount > 0: // give second chance
+			item.AccessCount--
 
-		delete(c.keys, item.Key)
-		c.itemPoolManager.Put(item)
+		default: // evict
+			evictedKey := item.Key
+			delete(c.keys, evictedKey)
+			c.itemPoolManager.Put(item)
 
-		c.items[c.hand] = nil
+			c.items[c.hand] = nil
 
-		newItem := c.itemPoolManager.Get()
+			return evictedKey, true
+		}
 
-		newItem.Key = key
-		newItem.Value = value
-		newItem.AccessCount = 1
-		c.items[c.hand] = newItem
-		c.keys[key] = c.hand
 		c.advanceHand()
-
-		return
 	}
+
+	return "", false
 }
 
 func (c *ClockAlgorithm) advanceHand() { // small helper
-- 
2.43.0


From 78e822526ee97f5f7614c49c448f62ef9529370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:14 +0000
Subject: [PATCH 29/84] fix: ARC stays within its capacity and always finds a
 victim

---
 pkg/eviction/arc.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 74f2f32..cba1695 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -278,7 +278,7 @@ func (a *ARC) Evict() (string, bool) {
 // Returns the evicted resident key (if any).
 func (a *ARC) replace(x string) string {
 	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
-	if fromT1 {
+	if fromT1 || a.t2.len == 0 { // whatever the target, an empty T2 has no victim
 		if tail := a.t1.removeTail(); tail != nil {
 			delete(a.t1Idx, tail.key)
 			a.b1.pushFront(&arcGhostNode{key: tail.key})
@@ -338,7 +338,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = a.capacity
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b1.remove(ghost)
 		delete(a.b1Idx, key)
@@ -360,7 +362,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = 0
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b2.remove(ghost)
 		delete(a.b2Idx, key)
@@ -408,6 +412,8 @@ func (a *ARC) trimForHistoryLimit() {
 			delete(a.b1Idx, tail.key)
 		}
 
+		a.replace("")
+
 		return
 	}
 
-- 
2.43.0


From 671a767c1eff6b89dfb3f983e9909a220cf3609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:04 +0000
Subject: [PATCH 30/84] fix: the in-memory capacity may be changed while the
 cache is used

---
 pkg/backend/inmemory.go | 9 +++++----
 pkg/backend/options.go  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..06704b5 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -14,7 +15,7 @@ import (
 type InMemory struct {
 	items           cache.ConcurrentMap    // map to store the items in the cache
 	itemPoolManager *cache.ItemPoolManager // item pool manager to manage the item pool
-	capacity        int                    // capacity of the cache, limits the number of items that can be stored in the cache
+	capacity        atomic.Int64           // capacity of the cache, limits the number of items that can be stored in the cache
 }
 
 // NewInMemory creates a new in-memory cache with the given options.
@@ -27,7 +28,7 @@ func NewInMemory(opts ...Option[InMemory]) (IBackend[InMemory], error) {
 	ApplyOptions(backendInstance, opts...)
 
 	// Check if the `capacity` is valid
-	if backendInstance.capacity < 0 {
+	if backendInstance.capacity.Load() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -40,12 +41,12 @@ func (cacheBackend *InMemory) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the capacity of the cacheBackend.
 func (cacheBackend *InMemory) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
 // Count returns the number of items in the cache.
diff --git a/pkg/backend/options.go b/pkg/backend/options.go
index 1c36e25..4c16c5c 100644
--- a/pkg/backend/options.go
+++ b/pkg/backend/options.go
@@ -14,7 +14,7 @@ type iConfigurableBackend interface {
 
 // setCapacity sets the `Capacity` field of the `InMemory` backend.
 func (inm *InMemory) setBackendCapacity(capacity int) {
-	inm.capacity = capacity
+	inm.capacity.Store(int64(capacity))
 }
 
 // setCapacity sets the `Capacity` field of the `Redis` backend.
-- 
2.43.0


From db01f0e6565fb47c1d0d4a35c5bd4a62be066ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:27 +0000
Subject: [PATCH 31/84] fix: in-memory Remove and Clear finish before they
 return

---
 pkg/backend/inmemory.go | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index 06704b5..9f0770d 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -114,39 +114,27 @@ func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*ca
 
 // Remove removes items with the given key from the cacheBackend. If an item is not found, it does nothing.
 func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		for _, key := range keys {
-			cacheBackend.items.Remove(key)
+	// Removing is a map operation: do it before returning, so that a call
+	// given up by the caller cannot delete what is stored afterwards.
+	for _, key := range keys {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
 		}
-	}()
 
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
-		return sentinel.ErrTimeoutOrCanceled
+		cacheBackend.items.Remove(key)
 	}
+
+	return nil
 }
 
 // Clear removes all items from the cacheBackend.
 func (cacheBackend *InMemory) Clear(ctx context.Context) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		// clear the cacheBackend
-		cacheBackend.items.Clear()
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil {
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	// clear the cacheBackend
+	cacheBackend.items.Clear()
+
+	return nil
 }
-- 
2.43.0


From 7f9a26db7869f5db80d89f2dbc77c62167239ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 32/84] fix: the memory accounting follows overwrites, failed
 writes and concurrent removals exactly

---
 hypercache.go    |   1 +
 hypercache_io.go | 236 +++++++++++++++++++++++++++++++++++------------
 2 files changed, 180 insertions(+), 57 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2102240..d99c417 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -67,6 +67,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	maxEvictionCount           uint                // max items per eviction run
 	maxCacheSize               int64               // hard memory limit (MB), 0 = unlimited
 	memoryAllocation           atomic.Int64        // current memory usage (bytes)
+	keyLocks                   keyLocks            // serializes the writers of a key (in-memory backend)
 	once                       sync.Once           // ensures background loops start once
 	statsCollectorName         string              // configured stats collector name
 	// StatsCollector to collect cache statistics
diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..23505fd 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -2,6 +2,7 @@ package hypercache
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -9,6 +10,11 @@ import (
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
+// keyLockStripes is the number of locks the keys are spread over.
+const keyLockStripes = 64
+
+type keyLocks [keyLockStripes]sync.Mutex
+
 // Set adds an item to the cache with the given key and value. If an item with the same key already
 // exists, it updates the value. If the expiration duration is greater than zero, the item will
 // expire after the specified duration.
@@ -25,38 +31,12 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	item.Expiration = expiration
 	item.LastAccess = time.Now()
 
-	// Set the size of the item (aligned with backend serializer when available)
-	err := hyperCache.setItemSize(item)
-	if err != nil {
-		return err
-	}
-
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-
-		return sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err := hyperCache.store(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return err
 	}
 
-	// Set the item in the eviction algorithm. The algorithm protects its own
-	// state internally; no outer lock needed.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
-
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
+	hyperCache.evictIfFull(ctx)
 
 	return nil
 }
@@ -112,20 +92,8 @@ func (hyperCache *HyperCache[T]) GetWithInfo(ctx context.Context, key string) (*
 // If the capacity of the cache is reached, leverage the eviction algorithm.
 func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value any, expiration time.Duration) (any, error) {
 	// if the item is found, return the value
-	if item, ok := hyperCache.backend.Get(ctx, key); ok {
-		// Check if the item has expired
-		if item.Expired() {
-			// Non-blocking trigger of expiration loop; don't pool here to avoid zeroing live refs
-			// Coalesced/debounced trigger
-			hyperCache.execTriggerExpiration()
-
-			return nil, sentinel.ErrKeyExpired
-		}
-
-		// Update the last access time and access count
-		hyperCache.touchItem(ctx, key, item)
-
-		return item.Value, nil
+	if current, found, err := hyperCache.getExisting(ctx, key); found {
+		return current, err
 	}
 
 	// if the item is not found, add it to the cache
@@ -136,43 +104,154 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	item.Expiration = expiration
 	item.LastAccess = time.Now()
 
+	unlock := hyperCache.lockKeys(key)
+
+	if hyperCache.countsExactly() { // another caller may have stored it in the meantime
+		if current, found, err := hyperCache.getExisting(ctx, key); found {
+			unlock()
+			hyperCache.itemPoolManager.Put(item)
+
+			return current, err
+		}
+	}
+
+	err := hyperCache.storeLocked(ctx, item)
+
+	unlock()
+
+	if err != nil {
+		return nil, err
+	}
+
+	hyperCache.evictIfFull(ctx)
+
+	return value, nil
+}
+
+// getExisting returns the value stored under the key for GetOrSet; found tells
+// whether the backend holds the key at all, expired or not.
+func (hyperCache *HyperCache[T]) getExisting(ctx context.Context, key string) (any, bool, error) {
+	item, ok := hyperCache.backend.Get(ctx, key)
+	if !ok {
+		return nil, false, nil
+	}
+
+	// Check if the item has expired
+	if item.Expired() {
+		// Non-blocking trigger of expiration loop; don't pool here to avoid zeroing live refs
+		// Coalesced/debounced trigger
+		hyperCache.execTriggerExpiration()
+
+		return nil, true, sentinel.ErrKeyExpired
+	}
+
+	// Update the last access time and access count
+	hyperCache.touchItem(ctx, key, item)
+
+	return item.Value, true, nil
+}
+
+// store writes a new item, see storeLocked.
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) error {
+	unlock := hyperCache.lockKeys(item.Key)
+	defer unlock()
+
+	return hyperCache.storeLocked(ctx, item)
+}
+
+// storeLocked sizes the item, accounts for it in place of the one it replaces
+// and writes it to the backend. On error nothing is stored or accounted for and
+// the item is back in the pool.
+func (hyperCache *HyperCache[T]) storeLocked(ctx context.Context, item *cache.Item) error {
 	// Set the size of the item (aligned with backend serializer when available)
 	err := hyperCache.setItemSize(item)
 	if err != nil {
-		return nil, err
+		hyperCache.itemPoolManager.Put(item)
+
+		return err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
+	key, value := item.Key, item.Value
+	growth := item.Size - hyperCache.storedSize(ctx, key)
 
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
+	// check if adding this item will exceed the maxCacheSize
+	total := hyperCache.memoryAllocation.Add(growth)
+	if hyperCache.maxCacheSize > 0 && growth > 0 && total > hyperCache.maxCacheSize {
+		hyperCache.memoryAllocation.Add(-growth)
 		hyperCache.itemPoolManager.Put(item)
 
-		return nil, sentinel.ErrCacheFull
+		return sentinel.ErrCacheFull
 	}
 
 	// Insert the item into the cache
 	err = hyperCache.backend.Set(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.memoryAllocation.Add(-growth)
 		hyperCache.itemPoolManager.Put(item)
 
-		return nil, err
+		return err
 	}
 
-	// Set the item in the eviction algorithm synchronously. The previous bare
-	// goroutine had no panic recovery, no shutdown coordination with Stop(),
-	// and let the caller observe a key whose eviction tracking had not yet
-	// been recorded. The algorithm's own internal mutex provides safety.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
+	// Set the item in the eviction algorithm synchronously; the algorithm's own
+	// internal mutex protects its state.
+	hyperCache.evictionAlgorithm.Set(key, value)
 
-	// If the cache is at capacity, evict an item when the eviction interval is zero
+	return nil
+}
+
+// evictIfFull evicts an item when the cache is over capacity and the eviction interval is zero.
+func (hyperCache *HyperCache[T]) evictIfFull(ctx context.Context) {
 	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
 		hyperCache.evictItem(ctx)
 	}
+}
+
+// countsExactly reports whether the memory accounting follows every item. Only
+// the in-memory backend is cheap enough to be asked before every write.
+func (hyperCache *HyperCache[T]) countsExactly() bool {
+	_, ok := any(hyperCache.backend).(*backend.InMemory)
+
+	return ok
+}
+
+// storedSize returns the accounted size of the item stored under the key.
+func (hyperCache *HyperCache[T]) storedSize(ctx context.Context, key string) int64 {
+	if !hyperCache.countsExactly() {
+		return 0
+	}
 
-	return value, nil
+	item, ok := hyperCache.backend.Get(ctx, key)
+	if !ok {
+		return 0
+	}
+
+	return item.Size
+}
+
+// lockKeys keeps other writers of the key (of every key, when none is given)
+// out until the returned function is called, so that each item enters and
+// leaves the accounting once. It is a no-op for remote backends.
+func (hyperCache *HyperCache[T]) lockKeys(key ...string) func() {
+	if !hyperCache.countsExactly() {
+		return func() {}
+	}
+
+	if len(key) == 0 {
+		for i := range hyperCache.keyLocks {
+			hyperCache.keyLocks[i].Lock()
+		}
+
+		return func() {
+			for i := range hyperCache.keyLocks {
+				hyperCache.keyLocks[i].Unlock()
+			}
+		}
+	}
+
+	mu := &hyperCache.keyLocks[cache.Hash(key[0])%keyLockStripes]
+	mu.Lock()
+
+	return mu.Unlock
 }
 
 // GetMultiple retrieves the items with the given keys from the cache.
@@ -264,6 +343,17 @@ func (hyperCache *HyperCache[T]) setItemSize(item *cache.Item) error {
 
 // Remove removes items with the given key from the cache. If an item is not found, it does nothing.
 func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) error {
+	if hyperCache.countsExactly() {
+		for _, key := range keys {
+			err := hyperCache.removeIf(ctx, key, func(*cache.Item) bool { return true })
+			if err != nil {
+				return err
+			}
+		}
+
+		return nil
+	}
+
 	// Remove the item from the eviction algorithm
 	// and update the memory allocation
 	for _, key := range keys {
@@ -283,6 +373,35 @@ func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) err
 	return nil
 }
 
+// removeIf removes the item stored under the key, its accounting and its
+// eviction tracking, provided that condition holds for it at that moment.
+func (hyperCache *HyperCache[T]) removeIf(ctx context.Context, key string, condition func(*cache.Item) bool) error {
+	unlock := hyperCache.lockKeys(key)
+	defer unlock()
+
+	item, ok := hyperCache.backend.Get(ctx, key)
+	if !ok {
+		// Never stored, or already gone: make sure it is not tracked either.
+		hyperCache.evictionAlgorithm.Delete(key)
+
+		return nil
+	}
+
+	if !condition(item) {
+		return nil
+	}
+
+	err := hyperCache.backend.Remove(ctx, key)
+	if err != nil {
+		return err
+	}
+
+	hyperCache.memoryAllocation.Add(-item.Size)
+	hyperCache.evictionAlgorithm.Delete(key)
+
+	return nil
+}
+
 // Clear removes all items from the cache.
 func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 	var (
@@ -290,6 +409,9 @@ func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 		err   error
 	)
 
+	unlock := hyperCache.lockKeys()
+	defer unlock()
+
 	// get all expired items
 	items, err = hyperCache.backend.List(ctx)
 	if err != nil {
-- 
2.43.0


From 138d63f060a54193117a81df70fbf6fb92002282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:45 +0000
Subject: [PATCH 33/84] fix: the expiration sweep keeps items stored since it
 listed them

---
 hypercache_expiration.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..12c6209 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -141,15 +141,18 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			expiredCount++
-
-			err := hyperCache.Remove(ctx, item.Key)
+			removed, err := hyperCache.removeExpired(ctx, item.Key)
 			if err != nil {
 				return err
 			}
 
 			hyperCache.itemPoolManager.Put(item)
-			hyperCache.StatsCollector.Incr("item_expired_count", 1)
+
+			if removed {
+				expiredCount++
+
+				hyperCache.StatsCollector.Incr("item_expired_count", 1)
+			}
 		}
 
 		itemCount := int64(hyperCache.backend.Count(ctx))
@@ -178,5 +181,29 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 	})
 }
 
+// removeExpired removes the item stored under the key if it has expired.
+// Another writer may have replaced it since the sweep listed it, so what is
+// stored now is what counts.
+func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string) (bool, error) {
+	if hyperCache.countsExactly() {
+		removed := false
+		err := hyperCache.removeIf(ctx, key, func(item *cache.Item) bool {
+			removed = item.Expired()
+
+			return removed
+		})
+
+		return removed && err == nil, err
+	}
+
+	if item, ok := hyperCache.backend.Get(ctx, key); ok && !item.Expired() {
+		return false, nil
+	}
+
+	err := hyperCache.Remove(ctx, key)
+
+	return err == nil, err
+}
+
 // TriggerExpiration exposes a manual expiration trigger (debounced/coalesced internally).
 func (hyperCache *HyperCache[T]) TriggerExpiration() { hyperCache.execTriggerExpiration() }
-- 
2.43.0


From 1280bde8bd62d513521e3fde89beb1bbd54ac299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:41 +0000
Subject: [PATCH 34/84] fix: failing jobs and resizes no longer stall the
 worker pool

---
 pool.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/pool.go b/pool.go
index 9b225f6..770c934 100644
--- a/pool.go
+++ b/pool.go
@@ -19,7 +19,10 @@ type WorkerPool struct {
 	// Enqueue takes RLock (concurrent senders allowed); Shutdown takes Lock.
 	shutdownMu sync.RWMutex
 	closed     bool
+	closing    chan struct{} // closed when Shutdown begins: releases blocked Enqueue and Resize calls
+	closeOnce  sync.Once
 
+	resizeMu  sync.Mutex // serializes Resize
 	workers   int
 	jobs      chan JobFunc
 	wg        sync.WaitGroup
@@ -31,6 +34,7 @@ type WorkerPool struct {
 func NewWorkerPool(workers int) *WorkerPool {
 	pool := &WorkerPool{
 		workers: workers,
+		closing: make(chan struct{}),
 		jobs:    make(chan JobFunc, workers),
 		// buffer quit to allow multiple resize signals without blocking immediately
 		quit:      make(chan struct{}, workers),
@@ -53,12 +57,17 @@ func (pool *WorkerPool) Enqueue(job JobFunc) {
 
 	pool.wg.Add(1)
 
-	pool.jobs <- job
+	select {
+	case pool.jobs <- job:
+	case <-pool.closing: // no worker will free a slot for it any more
+		pool.wg.Done()
+	}
 }
 
 // Shutdown shuts down the worker pool. It waits for all enqueued jobs to
 // finish before returning. Idempotent — repeat calls are no-ops.
 func (pool *WorkerPool) Shutdown() {
+	pool.closeOnce.Do(func() { close(pool.closing) })
 	pool.shutdownMu.Lock()
 
 	if pool.closed {
@@ -72,6 +81,11 @@ func (pool *WorkerPool) Shutdown() {
 	close(pool.jobs)
 	pool.shutdownMu.Unlock()
 
+	// Help the workers out, of which a Resize may have left none.
+	for job := range pool.jobs {
+		pool.run(job)
+	}
+
 	// Wait for all enqueued jobs to complete
 	pool.wg.Wait()
 	// Now signal any lingering workers to exit select loop
@@ -81,16 +95,27 @@ func (pool *WorkerPool) Shutdown() {
 }
 
 // Errors returns a channel that can be used to receive errors from the worker pool.
+// It is buffered; errors that find it full are dropped.
 func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
 
-// Resize resizes the worker pool.
+// Resize resizes the worker pool. It does nothing once the pool has been shut down.
 func (pool *WorkerPool) Resize(newSize int) {
 	if newSize < 0 {
 		return
 	}
 
+	pool.resizeMu.Lock()
+	defer pool.resizeMu.Unlock()
+
+	pool.shutdownMu.RLock() // keeps Shutdown from closing quit under us
+	defer pool.shutdownMu.RUnlock()
+
+	if pool.closed {
+		return
+	}
+
 	diff := newSize - pool.workers
 	if diff == 0 {
 		return
@@ -107,7 +132,11 @@ func (pool *WorkerPool) Resize(newSize int) {
 		// Decrease the number of workers
 		// Send only the number of quit signals needed to remove workers
 		for range -diff {
-			pool.quit <- struct{}{}
+			select {
+			case pool.quit <- struct{}{}:
+			case <-pool.closing:
+				return
+			}
 		}
 	}
 }
@@ -129,15 +158,24 @@ func (pool *WorkerPool) worker() {
 				return
 			}
 
-			err := job()
-			if err != nil {
-				pool.errorChan <- err
-			}
-
-			pool.wg.Done()
+			pool.run(job)
 
 		case <-pool.quit:
 			return
 		}
 	}
 }
+
+// run executes one job. Its error is offered to Errors(); with nobody reading
+// it is dropped, so that failing jobs cannot stall the workers.
+func (pool *WorkerPool) run(job JobFunc) {
+	defer pool.wg.Done()
+
+	err := job()
+	if err != nil {
+		select {
+		case pool.errorChan <- err:
+		default:
+		}
+	}
+}
-- 
2.43.0


From d1a6d8f5bbde13c5dfa0163c92c18ea21e2314c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 35/84] fix: stopping a cache from several goroutines does not
 race

---
 hypercache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index d99c417..bfa7e0e 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -195,13 +195,11 @@ func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 	default:
 	}
 
+	// Stop may be called from several goroutines: only read the fields here.
 	if hyperCache.bgCancel != nil {
 		hyperCache.bgCancel()
-
-		hyperCache.bgCancel = nil
 	}
 
-	hyperCache.once = sync.Once{}
 	hyperCache.workerPool.Shutdown()
 
 	if hyperCache.mgmtHTTP != nil {
-- 
2.43.0


From 00cfa2b6ad47c305457139ba74d7aa8715c63283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 36/84] fix: an expiration trigger arriving during a sweep is
 not lost for good

---
 hypercache_expiration.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 12c6209..1ff3a41 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -47,9 +47,6 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 		hyperCache.expirationLoop(ctx)
 	case <-hyperCache.expirationTriggerCh:
 		// manual/coalesced trigger
-		hyperCache.expirationLoop(ctx)
-		hyperCache.expirationSignalPending.Store(false)
-
 		// drain any queued triggers quickly
 		for draining := true; draining; {
 			select {
@@ -60,6 +57,11 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 			}
 		}
 
+		// Accept new triggers before the sweep starts, and only once nothing is
+		// left to drain: one swallowed with the flag up would block all others.
+		hyperCache.expirationSignalPending.Store(false)
+		hyperCache.expirationLoop(ctx)
+
 	case <-hyperCache.evictCh:
 		// manual eviction trigger
 		hyperCache.evictionLoop(ctx)
-- 
2.43.0


From 56e9843cb6aa3a812eb332b46412cd86395acb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 37/84] fix: eviction brings the cache back to its capacity
 whatever the algorithm still tracks

---
 hypercache_eviction.go | 67 +++++++++++++++++++++++++++++++++++++-----
 hypercache_io.go       |  2 +-
 2 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 91dd8ce..9d96d3e 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -3,11 +3,13 @@ package hypercache
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"time"
 
 	"github.com/hyp3rd/sectools/pkg/converters"
 
 	"github.com/hyp3rd/hypercache/pkg/backend"
+	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 	"github.com/hyp3rd/hypercache/pkg/eviction"
 )
 
@@ -40,18 +42,21 @@ func initEvictionAlgorithm[T backend.IBackendConstrain](hc *HyperCache[T]) error
 		return err
 	}
 
+	// Track every item the cache may hold, however few are evicted per run.
+	trackedItems := max(maxEvictionCount, hc.backend.Capacity())
+
 	algorithmName := hc.evictionAlgorithmName
 	if algorithmName == "" {
 		algorithmName = "lru"
 	}
 
 	if hc.evictionShardCount > 1 {
-		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, maxEvictionCount, hc.evictionShardCount)
+		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, trackedItems, hc.evictionShardCount)
 
 		return err
 	}
 
-	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, maxEvictionCount)
+	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, trackedItems)
 
 	return err
 }
@@ -104,10 +109,15 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		defer hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Now().UnixNano())
 
-		var evictedCount uint
+		var (
+			evictedCount uint
+			untracked    []*cache.Item
+		)
 
-		for hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-			if hyperCache.maxEvictionCount == evictedCount {
+		for hyperCache.overCapacity(ctx) {
+			// The maximum bounds a tick: the next one carries on. Without
+			// ticks (zero interval) this run has to finish the job.
+			if hyperCache.evictionInterval > 0 && hyperCache.maxEvictionCount > 0 && hyperCache.maxEvictionCount == evictedCount {
 				break
 			}
 
@@ -115,7 +125,7 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 			// outer lock needed. The Evict() -> Remove() window below is
 			// already non-atomic by design (other workers may insert items
 			// between the two calls); a wider lock would not change that.
-			key, ok := hyperCache.evictionAlgorithm.Evict()
+			key, ok := hyperCache.nextVictim(ctx, &untracked)
 			if !ok {
 				// no more items to evict
 				break
@@ -178,7 +188,9 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 // evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
 // If no item can be evicted, it returns a false.
 func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
-	key, ok := hyperCache.evictionAlgorithm.Evict()
+	var untracked []*cache.Item
+
+	key, ok := hyperCache.nextVictim(ctx, &untracked)
 	if !ok {
 		// no more items to evict
 		return "", false
@@ -192,6 +204,45 @@ func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
 	return key, true
 }
 
+// overCapacity reports whether the cache holds more items than it should. A zero capacity is no limit.
+func (hyperCache *HyperCache[T]) overCapacity(ctx context.Context) bool {
+	capacity := hyperCache.backend.Capacity()
+
+	return capacity > 0 && hyperCache.backend.Count(ctx) > capacity
+}
+
+// nextVictim returns the key to evict next: the algorithm's choice or, when it
+// tracks nothing any more, the least recently accessed item. The algorithm is
+// bounded and forgets keys while the cache outgrows it between two ticks, or
+// when the capacity is set later than the cache was created. The untracked
+// items are listed once per run, in rest.
+func (hyperCache *HyperCache[T]) nextVictim(ctx context.Context, rest *[]*cache.Item) (string, bool) {
+	key, ok := hyperCache.evictionAlgorithm.Evict()
+	if ok || !hyperCache.countsExactly() {
+		return key, ok
+	}
+
+	if *rest == nil {
+		items, err := hyperCache.backend.List(ctx)
+		if err != nil {
+			return "", false
+		}
+
+		slices.SortFunc(items, func(a, b *cache.Item) int { return a.LastAccess.Compare(b.LastAccess) })
+
+		*rest = items
+	}
+
+	if len(*rest) == 0 {
+		return "", false
+	}
+
+	key = (*rest)[0].Key
+	*rest = (*rest)[1:]
+
+	return key, true
+}
+
 // SetCapacity sets the capacity of the cache. If the new capacity is smaller than the current number of items in the cache,
 // it evicts the excess items from the cache.
 func (hyperCache *HyperCache[T]) SetCapacity(ctx context.Context, capacity int) {
@@ -201,7 +252,7 @@ func (hyperCache *HyperCache[T]) SetCapacity(ctx context.Context, capacity int)
 	hyperCache.shouldEvict.Swap(hyperCache.evictionInterval == 0 && hyperCache.backend.Capacity() > 0)
 
 	// if the cache size is greater than the new capacity, evict items
-	if hyperCache.backend.Count(ctx) > hyperCache.Capacity() {
+	if hyperCache.overCapacity(ctx) {
 		hyperCache.evictionLoop(ctx)
 	}
 }
diff --git a/hypercache_io.go b/hypercache_io.go
index 23505fd..fec2fa5 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -201,7 +201,7 @@ func (hyperCache *HyperCache[T]) storeLocked(ctx context.Context, item *cache.It
 
 // evictIfFull evicts an item when the cache is over capacity and the eviction interval is zero.
 func (hyperCache *HyperCache[T]) evictIfFull(ctx context.Context) {
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
+	if hyperCache.shouldEvict.Load() && hyperCache.overCapacity(ctx) {
 		hyperCache.evictItem(ctx)
 	}
 }
-- 
2.43.0


From 4a977bdfffa10ee3ea84c4793fa8c2f30e022deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 38/84] fix: loop duration statistics record durations

---
 hypercache_eviction.go   | 4 +++-
 hypercache_expiration.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 9d96d3e..5ad79ab 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -107,7 +107,9 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		start := time.Now()
 
-		defer hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Now().UnixNano())
+		defer func() {
+			hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Since(start).Nanoseconds())
+		}()
 
 		var (
 			evictedCount uint
diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 1ff3a41..a093f56 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -123,7 +123,9 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		start := time.Now()
 
-		defer hyperCache.StatsCollector.Timing("expiration_loop_duration", time.Now().UnixNano())
+		defer func() {
+			hyperCache.StatsCollector.Timing("expiration_loop_duration", time.Since(start).Nanoseconds())
+		}()
 
 		var (
 			expiredCount int64
-- 
2.43.0


From c36a4013be4c41d8ec927e9575f0b73d4d579ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 39/84] fix: reads count as uses for the eviction policy

---
 hypercache_io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypercache_io.go b/hypercache_io.go
index fec2fa5..d49bba9 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -295,6 +295,9 @@ func (hyperCache *HyperCache[T]) touchItem(ctx context.Context, key string, item
 		toucher.Touch(ctx, key)
 	}
 
+	// A read is a use: the eviction policy has to hear of it.
+	hyperCache.evictionAlgorithm.Get(key)
+
 	item.Touch()
 }
 
-- 
2.43.0


From a8ab343e72c2de41f147170a1502e399b6e80ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 40/84] fix: the in-process transport's registry is read under
 its lock

---
 pkg/backend/dist_memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 00768d1..b2a8e99 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1848,7 +1848,7 @@ func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) m
 		return missing
 	}
 
-	remote, ok := ip.backends[nodeID]
+	remote, ok := ip.lookup(nodeID)
 	if !ok {
 		return missing
 	}
@@ -3458,7 +3458,7 @@ func (dm *DistMemory) runGossipTick() {
 	// transport's Gossip method, which routes via HTTP for the
 	// auto-created DistHTTPTransport.
 	if ip, ok := transport.(*InProcessTransport); ok {
-		if remote, ok2 := ip.backends[string(target.ID)]; ok2 {
+		if remote, ok2 := ip.lookup(string(target.ID)); ok2 {
 			remote.acceptGossip(snapshot)
 		}
 
-- 
2.43.0


From d3cb3aa2d9b139fa144551867706727651ae3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 41/84] fix: gossip claims merge atomically and refutations
 exceed the rumour

---
 internal/cluster/membership.go | 56 ++++++++++++++++++++++++++++++++--
 pkg/backend/dist_memory.go     | 35 ++-------------------
 2 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 307c94c..44b9850 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -60,7 +60,12 @@ func (m *Membership) Upsert(n *Node) {
 	m.mu.Lock()
 
 	n.LastSeen = time.Now()
-	m.nodes[n.ID] = n
+
+	// Keep a copy: the stored node changes under the membership lock, which
+	// the caller (or another membership given the same node) does not hold.
+	stored := *n
+
+	m.nodes[n.ID] = &stored
 
 	// Build under the lock: two racing mutations must install their rings
 	// in the order they mutated the member map, or the older one sticks.
@@ -75,6 +80,36 @@ func (m *Membership) Upsert(n *Node) {
 	notify(observers, id, state, version)
 }
 
+// Merge adopts what a peer says about a node (gossip) when the node is unknown
+// or the claim carries a higher incarnation than what is held. Comparing and
+// adopting is one step: of two claims arriving together the newer one wins.
+// Returns true if the claim was adopted.
+func (m *Membership) Merge(n *Node) bool {
+	m.mu.Lock()
+
+	cur, ok := m.nodes[n.ID]
+	if ok && n.Incarnation <= cur.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	adopted := *n
+
+	adopted.LastSeen = time.Now()
+	m.nodes[n.ID] = &adopted
+
+	m.rebuildRingLocked()
+
+	version := m.ver.Next()
+	observers := m.observers
+	m.mu.Unlock()
+
+	notify(observers, adopted.ID, adopted.State, version)
+
+	return true
+}
+
 // List returns current nodes snapshot.
 func (m *Membership) List() []*Node {
 	m.mu.RLock()
@@ -210,16 +245,31 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 // NodeAlive; the typical caller already knows the local node is
 // alive but the explicit assignment guards against odd states the
 // local view might be holding.
-func (m *Membership) Refute(id NodeID) bool {
+func (m *Membership) Refute(id NodeID) bool { return m.refute(id, nil) }
+
+// RefuteClaim refutes a claim of the given incarnation: the node ends up alive
+// with an incarnation above both the claim's and its own. A claim older than
+// what the node already published is stale and ignored.
+//
+// Returns true if the claim was refuted.
+func (m *Membership) RefuteClaim(id NodeID, incarnation uint64) bool {
+	return m.refute(id, &incarnation)
+}
+
+func (m *Membership) refute(id NodeID, claimed *uint64) bool {
 	m.mu.Lock()
 
 	n, ok := m.nodes[id]
-	if !ok {
+	if !ok || (claimed != nil && *claimed < n.Incarnation) {
 		m.mu.Unlock()
 
 		return false
 	}
 
+	if claimed != nil {
+		n.Incarnation = *claimed
+	}
+
 	n.Incarnation++
 
 	wasDead := n.State == NodeDead
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index b2a8e99..9d5cc08 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3487,39 +3487,12 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
-		existing := false
-		for _, cur := range dm.membership.List() {
-			if cur.ID == node.ID {
-				existing = true
-
-				if node.Incarnation > cur.Incarnation {
-					dm.membership.Upsert(&cluster.Node{
-						ID:          node.ID,
-						Address:     node.Address,
-						State:       node.State,
-						Incarnation: node.Incarnation,
-						LastSeen:    time.Now(),
-					})
-				}
-
-				break
-			}
-		}
-
-		if !existing {
-			dm.membership.Upsert(&cluster.Node{
-				ID:          node.ID,
-				Address:     node.Address,
-				State:       node.State,
-				Incarnation: node.Incarnation,
-				LastSeen:    time.Now(),
-			})
-		}
+		dm.membership.Merge(node)
 	}
 }
 
 // refuteIfSuspected handles the SWIM self-refute path: when a peer
-// gossips that THIS node is Suspect or Dead at incarnation N, bump
+// gossips that THIS node is Suspect or Dead at incarnation N, raise
 // our local incarnation to N+1 and re-upsert ourselves as Alive.
 // Higher-incarnation-wins propagation in `acceptGossip` ensures the
 // next gossip tick disseminates the refutation cluster-wide.
@@ -3540,12 +3513,10 @@ func (dm *DistMemory) refuteIfSuspected(claim *cluster.Node) {
 
 	// Only refute when the peer's claim is at >= our incarnation;
 	// older claims are stale and ignored.
-	if claim.Incarnation < dm.localNode.Incarnation {
+	if !dm.membership.RefuteClaim(dm.localNode.ID, claim.Incarnation) {
 		return
 	}
 
-	dm.membership.Refute(dm.localNode.ID)
-
 	dm.logger.Info(
 		"self-refuted suspect/dead claim from peer",
 		slog.Uint64("claim_incarnation", claim.Incarnation),
-- 
2.43.0


From 50d86bb3558e89bb1ac3d71b1df5db8332da7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 42/84] fix: eviction removes what the policy picks, never the
 item just written

---
 hypercache_eviction.go | 36 ++++++++++----------------
 hypercache_io.go       | 58 +++++++++++++++++++++++++++++++-----------
 pkg/eviction/lfu.go    |  2 +-
 pkg/eviction/lru.go    |  2 +-
 4 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 5ad79ab..8426549 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -13,6 +13,10 @@ import (
 	"github.com/hyp3rd/hypercache/pkg/eviction"
 )
 
+// maxTrackedItems is the size of eviction algorithms that follow an in-memory
+// cache: more items than it will ever hold.
+const maxTrackedItems = 1 << 30
+
 // configureEvictionSettings computes derived eviction settings like shouldEvict and default maxEvictionCount.
 func configureEvictionSettings[T backend.IBackendConstrain](hc *HyperCache[T]) {
 	hc.shouldEvict.Store(hc.evictionInterval == 0 && hc.backend.Capacity() > 0)
@@ -42,14 +46,21 @@ func initEvictionAlgorithm[T backend.IBackendConstrain](hc *HyperCache[T]) error
 		return err
 	}
 
-	// Track every item the cache may hold, however few are evicted per run.
-	trackedItems := max(maxEvictionCount, hc.backend.Capacity())
-
 	algorithmName := hc.evictionAlgorithmName
 	if algorithmName == "" {
 		algorithmName = "lru"
 	}
 
+	// Track every item the cache may hold, however few are evicted per run.
+	trackedItems := max(maxEvictionCount, hc.backend.Capacity())
+
+	// Between two runs the cache may outgrow its capacity, and shards fill
+	// unevenly: an algorithm that forgets items then picks the wrong victims.
+	// The clock preallocates what it is sized for and keeps to the capacity.
+	if trackedItems > 0 && hc.countsExactly() && algorithmName != "clock" {
+		trackedItems = max(trackedItems, maxTrackedItems)
+	}
+
 	if hc.evictionShardCount > 1 {
 		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, trackedItems, hc.evictionShardCount)
 
@@ -187,25 +198,6 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
-// evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
-// If no item can be evicted, it returns a false.
-func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
-	var untracked []*cache.Item
-
-	key, ok := hyperCache.nextVictim(ctx, &untracked)
-	if !ok {
-		// no more items to evict
-		return "", false
-	}
-
-	err := hyperCache.Remove(ctx, key)
-	if err != nil {
-		return "", false
-	}
-
-	return key, true
-}
-
 // overCapacity reports whether the cache holds more items than it should. A zero capacity is no limit.
 func (hyperCache *HyperCache[T]) overCapacity(ctx context.Context) bool {
 	capacity := hyperCache.backend.Capacity()
diff --git a/hypercache_io.go b/hypercache_io.go
index d49bba9..88a3541 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -2,6 +2,7 @@ package hypercache
 
 import (
 	"context"
+	"log/slog"
 	"sync"
 	"time"
 
@@ -31,12 +32,12 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	item.Expiration = expiration
 	item.LastAccess = time.Now()
 
-	err := hyperCache.store(ctx, item)
+	victim, err := hyperCache.store(ctx, item)
 	if err != nil {
 		return err
 	}
 
-	hyperCache.evictIfFull(ctx)
+	hyperCache.evictVictim(ctx, victim)
 
 	return nil
 }
@@ -115,7 +116,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		}
 	}
 
-	err := hyperCache.storeLocked(ctx, item)
+	victim, err := hyperCache.storeLocked(ctx, item)
 
 	unlock()
 
@@ -123,7 +124,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	hyperCache.evictIfFull(ctx)
+	hyperCache.evictVictim(ctx, victim)
 
 	return value, nil
 }
@@ -152,7 +153,7 @@ func (hyperCache *HyperCache[T]) getExisting(ctx context.Context, key string) (a
 }
 
 // store writes a new item, see storeLocked.
-func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) error {
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) (string, error) {
 	unlock := hyperCache.lockKeys(item.Key)
 	defer unlock()
 
@@ -161,14 +162,15 @@ func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) er
 
 // storeLocked sizes the item, accounts for it in place of the one it replaces
 // and writes it to the backend. On error nothing is stored or accounted for and
-// the item is back in the pool.
-func (hyperCache *HyperCache[T]) storeLocked(ctx context.Context, item *cache.Item) error {
+// the item is back in the pool. It returns the key to evict in return for the
+// new one, if any: the caller does so once it has released the key.
+func (hyperCache *HyperCache[T]) storeLocked(ctx context.Context, item *cache.Item) (string, error) {
 	// Set the size of the item (aligned with backend serializer when available)
 	err := hyperCache.setItemSize(item)
 	if err != nil {
 		hyperCache.itemPoolManager.Put(item)
 
-		return err
+		return "", err
 	}
 
 	key, value := item.Key, item.Value
@@ -180,7 +182,7 @@ func (hyperCache *HyperCache[T]) storeLocked(ctx context.Context, item *cache.It
 		hyperCache.memoryAllocation.Add(-growth)
 		hyperCache.itemPoolManager.Put(item)
 
-		return sentinel.ErrCacheFull
+		return "", sentinel.ErrCacheFull
 	}
 
 	// Insert the item into the cache
@@ -189,20 +191,46 @@ func (hyperCache *HyperCache[T]) storeLocked(ctx context.Context, item *cache.It
 		hyperCache.memoryAllocation.Add(-growth)
 		hyperCache.itemPoolManager.Put(item)
 
-		return err
+		return "", err
 	}
 
+	// The algorithm picks its victim among the items that were there before:
+	// told of the new one first, it would make room by forgetting its victim.
+	victim := hyperCache.victimIfFull(ctx, key)
+
 	// Set the item in the eviction algorithm synchronously; the algorithm's own
 	// internal mutex protects its state.
 	hyperCache.evictionAlgorithm.Set(key, value)
 
-	return nil
+	return victim, nil
 }
 
-// evictIfFull evicts an item when the cache is over capacity and the eviction interval is zero.
-func (hyperCache *HyperCache[T]) evictIfFull(ctx context.Context) {
-	if hyperCache.shouldEvict.Load() && hyperCache.overCapacity(ctx) {
-		hyperCache.evictItem(ctx)
+// victimIfFull returns the key to evict, other than the one just written, when
+// the cache is over capacity and the eviction interval is zero.
+func (hyperCache *HyperCache[T]) victimIfFull(ctx context.Context, written string) string {
+	if !hyperCache.shouldEvict.Load() || !hyperCache.overCapacity(ctx) {
+		return ""
+	}
+
+	var untracked []*cache.Item
+
+	for {
+		key, ok := hyperCache.nextVictim(ctx, &untracked)
+		if !ok || key != written {
+			return key
+		}
+	}
+}
+
+// evictVictim removes the item that had to make room for another one, if any.
+func (hyperCache *HyperCache[T]) evictVictim(ctx context.Context, key string) {
+	if key == "" {
+		return
+	}
+
+	err := hyperCache.Remove(ctx, key)
+	if err != nil {
+		hyperCache.logger.Warn("eviction failed", slog.String("key", key), slog.Any("error", err))
 	}
 }
 
diff --git a/pkg/eviction/lfu.go b/pkg/eviction/lfu.go
index 0abed48..1b4d7d6 100644
--- a/pkg/eviction/lfu.go
+++ b/pkg/eviction/lfu.go
@@ -81,7 +81,7 @@ func NewLFUAlgorithm(capacity int) (*LFUAlgorithm, error) {
 	}
 
 	return &LFUAlgorithm{
-		items:  make(map[string]*Node, capacity),
+		items:  make(map[string]*Node),
 		freqs:  &FrequencyHeap{},
 		length: 0,
 		cap:    capacity,
diff --git a/pkg/eviction/lru.go b/pkg/eviction/lru.go
index a3248b5..41219f1 100644
--- a/pkg/eviction/lru.go
+++ b/pkg/eviction/lru.go
@@ -33,7 +33,7 @@ func NewLRUAlgorithm(capacity int) (*LRU, error) {
 
 	return &LRU{
 		capacity: capacity,
-		items:    make(map[string]*lruCacheItem, capacity),
+		items:    make(map[string]*lruCacheItem),
 		itemPool: sync.Pool{
 			New: func() any {
 				return &lruCacheItem{}
-- 
2.43.0


From 2fcd0d531b51e6aa2ad403e9b3f0b982cdfdfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 43/84] fix: eviction runs do not overlap

---
 hypercache.go          | 1 +
 hypercache_eviction.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/hypercache.go b/hypercache.go
index bfa7e0e..7788496 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -65,6 +65,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	evictionInterval           time.Duration       // interval for eviction loop
 	shouldEvict                atomic.Bool         // proactive eviction enabled
 	maxEvictionCount           uint                // max items per eviction run
+	evictionMu                 sync.Mutex          // serializes eviction runs
 	maxCacheSize               int64               // hard memory limit (MB), 0 = unlimited
 	memoryAllocation           atomic.Int64        // current memory usage (bytes)
 	keyLocks                   keyLocks            // serializes the writers of a key (in-memory backend)
diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 8426549..89b1882 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -116,6 +116,10 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 	hyperCache.workerPool.Enqueue(func() error {
 		hyperCache.StatsCollector.Incr("eviction_loop_count", 1)
 
+		// One run at a time: two of them would each evict for the same excess.
+		hyperCache.evictionMu.Lock()
+		defer hyperCache.evictionMu.Unlock()
+
 		start := time.Now()
 
 		defer func() {
-- 
2.43.0


From a5efda07dad42654f3d9dcb060ca220c91f900fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 44/84] fix: stopping a cache stops its distributed backend

---
 hypercache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 7788496..3f7a1c5 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -203,18 +203,24 @@ func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 
 	hyperCache.workerPool.Shutdown()
 
+	var err error
+
 	if hyperCache.mgmtHTTP != nil {
-		ctx, cancel := context.WithTimeout(ctx, shutdownTimeout)
+		mgmtCtx, cancel := context.WithTimeout(ctx, shutdownTimeout)
 		defer cancel()
 
-		err := hyperCache.mgmtHTTP.Shutdown(ctx)
-		if err != nil {
-			// Handle error
-			return err
+		err = hyperCache.mgmtHTTP.Shutdown(mgmtCtx)
+	}
+
+	// A backend with background activity of its own ends with the cache.
+	if stopper, ok := any(hyperCache.backend).(interface{ Stop(ctx context.Context) error }); ok {
+		stopErr := stopper.Stop(ctx)
+		if err == nil {
+			err = stopErr
 		}
 	}
 
-	return nil
+	return err
 }
 
 // Capacity returns the capacity of the cache.
-- 
2.43.0


From a7c07aaf5d45b496d6a05c0cb81aec90e269b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 45/84] fix: a cache that cannot be built leaves no workers
 behind

---
 hypercache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hypercache.go b/hypercache.go
index 3f7a1c5..d102cea 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -156,18 +156,24 @@ func New[T backend.IBackendConstrain](ctx context.Context, bm *BackendManager, c
 	// Initialize eviction algorithm
 	err = initEvictionAlgorithm(hyperCache)
 	if err != nil {
+		hyperCache.workerPool.Shutdown()
+
 		return hyperCache, err
 	}
 
 	// Stats collector
 	err = configureStats(hyperCache)
 	if err != nil {
+		hyperCache.workerPool.Shutdown()
+
 		return hyperCache, err
 	}
 
 	// Capacity check (fatal)
 	err = checkCapacity(hyperCache)
 	if err != nil {
+		hyperCache.workerPool.Shutdown()
+
 		return nil, err
 	}
 
-- 
2.43.0


From 2dafd0d1b39387a118b108ca1b772cd046f1450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 46/84] fix: the management server shuts down even before it
 began to serve

---
 management_http.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/management_http.go b/management_http.go
index d0bb7b7..1fdb7c4 100644
--- a/management_http.go
+++ b/management_http.go
@@ -3,6 +3,7 @@ package hypercache
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"sync/atomic"
@@ -252,7 +253,7 @@ func (s *ManagementHTTPServer) Start(ctx context.Context, hc managementCache) er
 		// Suppress fiber's startup banner so tests at -count=N do not drown
 		// real failures under hundreds of "INFO Server started on..." lines.
 		serveErr := s.app.Listener(ln, fiber.ListenConfig{DisableStartupMessage: true})
-		if serveErr != nil {
+		if serveErr != nil && s.ctx.Err() == nil {
 			// Stash so operators can read it via LastServeError(); a
 			// listener that crashed silently is the worst kind of
 			// production bug.
@@ -288,7 +289,20 @@ func (s *ManagementHTTPServer) Shutdown(ctx context.Context) error {
 		s.lifeCancel()
 	}
 
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// The serve goroutine may not have handed the listener to fiber yet, which
+	// then has nothing to shut down: closing it here keeps it from being served.
+	closeErr := s.ln.Close()
+	if err == nil {
+		err = closeErr
+	}
+
+	if errors.Is(err, net.ErrClosed) { // nothing left to close
+		return nil
+	}
+
+	return err
 }
 
 // mountRoutes.
-- 
2.43.0


From 75ae518b826445bd809305faa0ff314b23087e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 47/84] fix: distributed writes and deletions follow one
 version order

Replicas stored whatever arrived last: a delayed or repeated older write, hint
or repair overwrote a newer value, and brought deleted keys back, although the
documentation and the callers' comments rely on applySet comparing versions.
Compare version and origin (and the key's tombstone) in one critical section
on every path, which also ends the data races on the tombstone maps.

- Versions are lamport-like: a node's next version exceeds everything it saw,
  and a primary that a replica knows better than (it restarted, or just took
  the key over) decides again above the replica's version.
- Replicas record the primary's tombstone instead of making up their own.
- A peer reports a deletion as such; anti-entropy no longer takes a key the
  peer never saw for a deleted one and wipes the local copy.
- A write forwarded to the primary is committed there like a local one:
  versioned, replicated, hinted and acknowledged only by enough owners.
  It used to be stored with version 0 and acknowledged regardless.
- A quorum read counts owners that do not hold the key as answers, and lets a
  tombstone outvote older copies.
---
 docs/distributed.md                |  11 +-
 pkg/backend/dist_http_server.go    |  40 +-
 pkg/backend/dist_http_transport.go |  51 ++-
 pkg/backend/dist_http_types.go     |   4 +-
 pkg/backend/dist_memory.go         | 601 ++++++++++++++++++++---------
 pkg/backend/dist_transport.go      |  23 +-
 6 files changed, 509 insertions(+), 221 deletions(-)

diff --git a/docs/distributed.md b/docs/distributed.md
index aa3a1a4..7373d86 100644
--- a/docs/distributed.md
+++ b/docs/distributed.md
@@ -62,9 +62,10 @@ Configuration knobs:
 
 ## Tombstones & Delete Semantics
 
-- Deletes allocate a tombstone version: previous item version +1; if absent, from per-process monotonic counter.
-- Tombstones prevent lower/equal remote versions from resurrecting data.
-- Merkle diff treats tombstone version as authoritative; remote absence vs local presence triggers inferred tombstone if newer local key missing remote counterpart.
+- Deletes allocate a tombstone version from the same lamport-like counter as writes (always above anything the node has issued or seen); replicas record the primary's tombstone.
+- Tombstones prevent lower/equal remote versions from resurrecting data, whichever way these arrive (replication, hints, read repair, migration, anti-entropy).
+- A replica that holds something newer keeps it and tells the sender which version won; a primary that had not heard of that version (e.g. after a restart) decides again, above it.
+- Merkle diff treats tombstone version as authoritative; a peer that deleted a key answers with its tombstone, which is adopted. Mere absence on a peer proves nothing and deletes nothing.
 - TTL + periodic sweep optionally compacts old tombstones; risk: if compaction happens before a previously partitioned replica resurfaces, a now-missing delete intent could allow stale resurrection (acceptable in experimental scope, documented for future durable design).
 
 ## Hinted Handoff
@@ -76,9 +77,9 @@ Configuration knobs:
 
 ## Anti-Entropy (Merkle)
 
-- Tree built over key+version (tombstones included) chunked by `WithDistMerkleChunkSize`.
+- Tree built over key+version+origin (tombstones included) chunked by `WithDistMerkleChunkSize`.
 - Diff identifies differing leaf indexes; missing remote-only keys enumerated via in-process introspection or `/internal/keys` fallback (capped by `WithDistListKeysCap`).
-- Remote fetch & adoption updates local versions; missing local items with remote deletion inferred produce local tombstones.
+- Remote fetch & adoption updates local versions and adopts remote tombstones.
 - Future: incremental scheduling (adaptive intervals based on recent diffs), deletion reconciliation matrix tests, rolling hash fast-path.
 
 ## Failure Detection & Membership
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..eb00418 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -9,6 +9,7 @@ import (
 	"net"
 	"net/http"
 	"strconv"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -389,9 +390,25 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
-	dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	return writeOutcome(fctx, dm.applyForwardedSet(s.ctx, it, req.Replicate))
+}
+
+// writeOutcome answers a peer's set or remove. A superseded one is no failure,
+// but the peer learns which version won; a quorum failure is reported as such,
+// so that the forwarding node can tell it from a failure to reach this one.
+func writeOutcome(fctx fiber.Ctx, err error) error {
+	var superseded *supersededError
 
-	return fctx.JSON(httpSetResponse{})
+	switch {
+	case err == nil:
+		return fctx.JSON(httpSetResponse{})
+	case errors.As(err, &superseded):
+		return fctx.JSON(httpSetResponse{Superseded: superseded.version})
+	case errors.Is(err, sentinel.ErrQuorumFailed):
+		return fctx.Status(fiber.StatusServiceUnavailable).JSON(httpSetResponse{Error: sentinel.ErrQuorumFailed.Error()})
+	default:
+		return fctx.Status(fiber.StatusInternalServerError).JSON(httpSetResponse{Error: err.Error()})
+	}
 }
 
 func (s *distHTTPServer) registerSet(dm *DistMemory) {
@@ -415,11 +432,9 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusNotFound).JSON(fiber.Map{constants.ErrorLabel: "not owner"})
 	}
 
-	if it, ok := dm.shardFor(key).items.Get(key); ok {
-		return fctx.JSON(httpGetResponse{Found: true, Item: it})
-	}
+	it, ok := dm.lookupLocal(key)
 
-	return fctx.JSON(httpGetResponse{Found: false})
+	return fctx.JSON(httpGetResponse{Found: ok, Item: it})
 }
 
 func (s *distHTTPServer) registerGet(dm *DistMemory) {
@@ -442,9 +457,18 @@ func (s *distHTTPServer) handleRemove(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid replicate"})
 	}
 
-	dm.applyRemove(s.ctx, key, replicate)
+	ctx := s.ctx
+
+	if raw := fctx.Query("version"); raw != "" { // replicated removal: record the sender's tombstone
+		version, verErr := strconv.ParseUint(raw, 10, 64)
+		if verErr != nil {
+			return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid version"})
+		}
+
+		ctx = contextWithRemoval(ctx, tombstone{version: version, origin: strings.Clone(fctx.Query("origin"))})
+	}
 
-	return fctx.SendStatus(fiber.StatusOK)
+	return writeOutcome(fctx, dm.applyRemove(ctx, key, replicate))
 }
 
 func (s *distHTTPServer) registerRemove(dm *DistMemory) {
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..51f8b11 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -203,9 +203,31 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 			return ewrap.Wrap(rerr, "read error body")
 		}
 
+		var failed httpSetResponse
+		if json.Unmarshal(errBody, &failed) == nil && failed.Error == sentinel.ErrQuorumFailed.Error() {
+			return sentinel.ErrQuorumFailed
+		}
+
 		return ewrap.Newf("forward set status %d body %s", resp.StatusCode, string(errBody))
 	}
 
+	return supersededOutcome(body)
+}
+
+// supersededOutcome reads the answer to a successful set or remove and returns a
+// *supersededError if the peer kept something newer. Peers that predate the field,
+// or answer a removal with plain text, report nothing.
+func supersededOutcome(body io.Reader) error {
+	buf, err := io.ReadAll(body)
+	if err != nil {
+		return ewrap.Wrap(err, "read response body")
+	}
+
+	var outcome httpSetResponse
+	if json.Unmarshal(buf, &outcome) == nil && outcome.Superseded != 0 {
+		return &supersededError{version: outcome.Superseded}
+	}
+
 	return nil
 }
 
@@ -240,11 +262,7 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 		return nil, false, derr
 	}
 
-	if !found {
-		return nil, false, nil
-	}
-
-	return item, true, nil
+	return item, found, nil
 }
 
 func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
@@ -264,11 +282,12 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		}
 	}
 
-	if !found {
+	ib, ok := raw["item"]
+	if !found && (!ok || string(ib) == "null") { // a miss, and no tombstone either
 		return nil, false, nil
 	}
 
-	if ib, ok := raw["item"]; ok && len(ib) > 0 {
+	if ok && len(ib) > 0 {
 		var mirror struct {
 			Key        string          `json:"key"`
 			Value      json.RawMessage `json:"value"`
@@ -290,7 +309,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
 			LastAccess:  time.Now(),
-		}, true, nil
+		}, found, nil
 	}
 
 	return &cache.Item{}, true, nil
@@ -299,10 +318,17 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 // ForwardRemove propagates a delete operation to a remote node.
 func (t *DistHTTPTransport) ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error {
 	// prefer canonical endpoint
-	hreq, err := t.newNodeRequest(ctx, http.MethodDelete, nodeID, "/internal/del", url.Values{
+	params := url.Values{
 		"key":       {key},
 		"replicate": {strconv.FormatBool(replicate)},
-	}, nil)
+	}
+
+	if tomb, ok := removalFromContext(ctx); ok {
+		params.Set("version", strconv.FormatUint(tomb.version, 10))
+		params.Set("origin", tomb.origin)
+	}
+
+	hreq, err := t.newNodeRequest(ctx, http.MethodDelete, nodeID, "/internal/del", params, nil)
 	if err != nil {
 		return ewrap.Wrap(err, errMsgNewRequest)
 	}
@@ -312,7 +338,8 @@ func (t *DistHTTPTransport) ForwardRemove(ctx context.Context, nodeID, key strin
 		return err
 	}
 
-	defer drainBody(t.limitedBody(resp))
+	body := t.limitedBody(resp)
+	defer drainBody(body)
 
 	if resp.StatusCode == http.StatusNotFound {
 		return sentinel.ErrBackendNotFound
@@ -322,7 +349,7 @@ func (t *DistHTTPTransport) ForwardRemove(ctx context.Context, nodeID, key strin
 		return ewrap.Newf("forward remove status %d", resp.StatusCode)
 	}
 
-	return nil
+	return supersededOutcome(body)
 }
 
 // Health performs a health probe against a remote node.
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 69968c3..ad72fa2 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -14,8 +14,10 @@ type httpSetRequest struct { // shared with server & transport
 	Replicate  bool   `json:"replicate"`
 }
 
+// httpSetResponse answers a set; removals answer with the same shape.
 type httpSetResponse struct {
-	Error string `json:"error,omitempty"`
+	Error      string `json:"error,omitempty"`
+	Superseded uint64 `json:"superseded,omitempty"` // the node kept this newer version instead
 }
 
 type httpGetResponse struct {
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 9d5cc08..11f4b9f 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -131,7 +131,7 @@ type DistMemory struct {
 	// consistency / versioning (initial)
 	readConsistency  ConsistencyLevel
 	writeConsistency ConsistencyLevel
-	versionCounter   atomic.Uint64 // global monotonic for this node (lamport-like)
+	versionCounter   atomic.Uint64 // highest version this node has issued or seen (lamport-like)
 
 	// hinted handoff
 	hintTTL        time.Duration
@@ -172,9 +172,6 @@ type DistMemory struct {
 	autoSyncBackoffFactor    atomic.Int64 // current multiplier; >=1 when adaptive enabled
 	autoSyncCleanTicks       atomic.Int64 // cumulative clean ticks (whole-cycle, not per-peer)
 
-	// tombstone version source when no prior item exists (monotonic per process)
-	tombVersionCounter atomic.Uint64
-
 	// tombstone retention / compaction
 	tombstoneTTL      time.Duration
 	tombstoneSweepInt time.Duration
@@ -366,6 +363,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
 type distShard struct {
 	items             cache.ConcurrentMap
+	versionMu         sync.Mutex                  // serializes version compare + write of items and tombs; guards tombs
 	tombs             map[string]tombstone        // per-key tombstones
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
@@ -524,6 +522,8 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 			encodeUint64BigEndian(buf, e.v)
 
 			_, _ = hasher.Write(buf)
+			_, _ = hasher.Write([]byte(e.o))
+			_, _ = hasher.Write([]byte{0})
 		}
 
 		leaves = append(leaves, append([]byte(nil), hasher.Sum(nil)...))
@@ -534,10 +534,11 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 	return &MerkleTree{LeafHashes: leaves, Root: append([]byte(nil), root...), ChunkSize: chunkSize}
 }
 
-// merkleKV is an internal pair used during tree construction & sync.
+// merkleKV is an internal entry used during tree construction & sync.
 type merkleKV struct {
 	k string
 	v uint64
+	o string // copies of one version may differ in origin
 }
 
 // DiffLeafRanges compares two trees and returns indexes of differing leaf chunks.
@@ -1202,9 +1203,15 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 		return
 	}
 
+	dm.observeVersion(it.Version)
+
 	sh := dm.shardFor(it.Key)
+
+	sh.versionMu.Lock()
+	defer sh.versionMu.Unlock()
+
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
-	delete(sh.tombs, it.Key)
+	dm.forgetTombstone(sh, it.Key)
 	sh.items.Set(it.Key, it)
 }
 
@@ -1882,38 +1889,19 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 		return
 	}
 
-	sh := dm.shardFor(key)
-
-	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
-			return
-		}
-
-		if cur, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			sh.items.Remove(key)
-
-			nextVer := cur.Version + 1
-
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-			dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	if !ok {
+		// A peer that deleted the key answers with its delete marker: adopt it,
+		// so the deletion reaches this node too. A peer that knows nothing about
+		// the key proves nothing (it may never have seen the write), so whatever
+		// this node holds stays.
+		if it != nil {
+			_ = dm.entomb(dm.shardFor(key), key, tombstone{version: it.Version, origin: it.Origin, at: time.Now()})
 		}
 
 		return
 	}
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
-		// If tombstone version newer or equal, do not resurrect
-		if tomb.version >= it.Version {
-			return
-		}
-
-		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
-		dm.metrics.tombstonesActive.Store(dm.countTombstones())
-	}
-
-	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
-		dm.applySet(ctx, it, false)
+	if dm.applySet(ctx, it, false) == nil {
 		dm.metrics.merkleKeysPulled.Add(1)
 	}
 }
@@ -1928,12 +1916,16 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 		}
 
 		for k, it := range shard.items.All() {
-			entries = append(entries, merkleKV{k: k, v: it.Version})
+			entries = append(entries, merkleKV{k: k, v: it.Version, o: it.Origin})
 		}
 
+		shard.versionMu.Lock()
+
 		for k, ts := range shard.tombs { // include tombstones
-			entries = append(entries, merkleKV{k: k, v: ts.version})
+			entries = append(entries, merkleKV{k: k, v: ts.version, o: ts.origin})
 		}
+
+		shard.versionMu.Unlock()
 	}
 
 	return entries
@@ -1959,9 +1951,6 @@ func (dm *DistMemory) startTombstoneSweeper() {
 				if purged > 0 {
 					dm.metrics.tombstonesPurged.Add(purged)
 				}
-
-				dm.metrics.tombstonesActive.Store(dm.countTombstones())
-
 			case <-stopCh:
 				return
 			}
@@ -1984,31 +1973,20 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.versionMu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
-				delete(sh.tombs, k)
+				dm.forgetTombstone(sh, k)
 
 				purged++
 			}
 		}
-	}
-
-	return purged
-}
-
-// countTombstones returns approximate current count.
-func (dm *DistMemory) countTombstones() int64 {
-	var total int64
-
-	for _, sh := range dm.shards {
-		if sh == nil {
-			continue
-		}
 
-		total += int64(len(sh.tombs))
+		sh.versionMu.Unlock()
 	}
 
-	return total
+	return purged
 }
 
 // Rebalancing (Phase 3 initial implementation).
@@ -2384,7 +2362,7 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// replicate=false; the new primary's own rebalance/replica-diff
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
-	if migrationErr != nil {
+	if migrationErr != nil && !isSuperseded(migrationErr) {
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
 			slog.String("key", item.Key),
@@ -2674,12 +2652,22 @@ func (*DistMemory) requiredAcks(total int, lvl ConsistencyLevel) int {
 
 // getOne fetches from a single owner path.
 func (dm *DistMemory) getOne(ctx context.Context, key string, owners []cluster.NodeID) (*cache.Item, bool) {
+	var deleted *cache.Item // newest tombstone met so far: leftover copies it covers do not count
+
 	for idx, oid := range owners { // iterate owners until hit
-		if it, ok := dm.tryLocalGet(key, idx, oid); ok {
-			return it, true
+		it, ok := dm.tryLocalGet(key, idx, oid)
+		if it == nil {
+			it, ok = dm.tryRemoteGet(ctx, key, idx, oid)
 		}
 
-		if it, ok := dm.tryRemoteGet(ctx, key, idx, oid); ok {
+		switch {
+		case it == nil:
+			continue
+		case !ok:
+			if deleted == nil || it.Version > deleted.Version {
+				deleted = it
+			}
+		case deleted == nil || it.Version > deleted.Version:
 			return it, true
 		}
 	}
@@ -2687,24 +2675,23 @@ func (dm *DistMemory) getOne(ctx context.Context, key string, owners []cluster.N
 	return nil, false
 }
 
-// tryLocalGet attempts local shard lookup when oid is local; returns item if found.
+// tryLocalGet attempts local shard lookup when oid is local; returns item if found,
+// or the tombstone (without ok) as lookupLocal does.
 func (dm *DistMemory) tryLocalGet(key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
 	if oid != dm.localNode.ID { // not local owner
 		return nil, false
 	}
 
-	if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
-		if idx > 0 { // promotion
-			dm.metrics.readPrimaryPromote.Add(1)
-		}
-
-		return it, true
+	it, ok := dm.lookupLocal(key)
+	if ok && idx > 0 { // promotion
+		dm.metrics.readPrimaryPromote.Add(1)
 	}
 
-	return nil, false
+	return it, ok
 }
 
 // tryRemoteGet attempts remote fetch for given owner; includes promotion + repair.
+// A non-nil item without ok is the owner's tombstone, as in ForwardGet.
 func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
 	transport := dm.loadTransport()
 	if oid == dm.localNode.ID || transport == nil { // skip local path or missing transport
@@ -2722,8 +2709,8 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 		return nil, false
 	}
 
-	if !ok { // miss
-		return nil, false
+	if !ok { // miss (err leaves it nil)
+		return it, false
 	}
 
 	if idx > 0 { // promotion occurred
@@ -2734,8 +2721,9 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 	if dm.ownsKeyInternal(key) {
 		if _, ok2 := dm.shardFor(key).items.Get(key); !ok2 {
 			cloned := *it
-			dm.applySet(ctx, &cloned, false)
-			dm.metrics.readRepair.Add(1)
+			if dm.applySet(ctx, &cloned, false) == nil {
+				dm.metrics.readRepair.Add(1)
+			}
 		}
 	}
 
@@ -2745,13 +2733,12 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 // getWithConsistency performs quorum/all reads.
 func (dm *DistMemory) getWithConsistency(ctx context.Context, key string, owners []cluster.NodeID) (*cache.Item, bool) {
 	needed := dm.requiredAcks(len(owners), dm.readConsistency)
-	acks := 0
-
-	var chosen *cache.Item
 
 	// gather results sequentially until quorum reached, tracking stale owners
-	staleOwners := dm.collectQuorum(ctx, key, owners, needed, &chosen, &acks)
-	if acks < needed || chosen == nil {
+	staleOwners, read := dm.collectQuorum(ctx, key, owners, needed)
+
+	chosen := read.result()
+	if read.acks < needed || chosen == nil {
 		return nil, false
 	}
 
@@ -2761,37 +2748,86 @@ func (dm *DistMemory) getWithConsistency(ctx context.Context, key string, owners
 	return chosen, true
 }
 
-// collectQuorum iterates owners, updates chosen item and acks, returns owners needing repair.
+// ownerReply is one owner's answer to a quorum read. An owner that does not
+// hold the key answers too: it counts towards the quorum, and if it deleted the
+// key its tombstone competes with the other owners' copies.
+type ownerReply struct {
+	item      *cache.Item // the owner's copy, or its tombstone's version and origin; nil if it knows nothing
+	live      bool        // item is a copy rather than a tombstone
+	responded bool        // the owner answered at all
+}
+
+// quorumRead accumulates owner replies until enough owners answered.
+type quorumRead struct {
+	acks   int
+	chosen *cache.Item // newest copy
+	tomb   *cache.Item // newest tombstone
+}
+
+// add accounts for one reply and reports whether it replaced an older copy.
+func (q *quorumRead) add(dm *DistMemory, reply ownerReply) bool {
+	if !reply.responded {
+		return false
+	}
+
+	q.acks++
+
+	if reply.item == nil {
+		return false
+	}
+
+	if !reply.live {
+		if q.tomb == nil || reply.item.Version > q.tomb.Version {
+			q.tomb = reply.item
+		}
+
+		return false
+	}
+
+	prev := q.chosen
+
+	q.chosen = dm.chooseNewer(q.chosen, reply.item)
+
+	return prev != nil && q.chosen != prev
+}
+
+// result returns the newest copy unless a tombstone covers it.
+func (q *quorumRead) result() *cache.Item {
+	if q.chosen != nil && q.tomb != nil && q.chosen.Version <= q.tomb.Version {
+		return nil
+	}
+
+	return q.chosen
+}
+
+// settled reports whether needed owners answered and the key's fate is known
+// from their answers: a copy or a tombstone. If nobody asked so far knows the
+// key, the remaining owners are still worth asking.
+func (q *quorumRead) settled(needed int) bool {
+	return q.acks >= needed && (q.chosen != nil || q.tomb != nil)
+}
+
+// collectQuorum iterates owners until the read is settled; returns owners needing repair and what was read.
 func (dm *DistMemory) collectQuorum(
 	ctx context.Context,
 	key string,
 	owners []cluster.NodeID,
 	needed int,
-	chosen **cache.Item,
-	acks *int,
-) []cluster.NodeID {
+) ([]cluster.NodeID, *quorumRead) {
+	read := &quorumRead{}
+
 	stale := make([]cluster.NodeID, 0, len(owners))
 	for idx, oid := range owners {
-		it, ok := dm.fetchOwner(ctx, key, idx, oid)
-		if !ok {
-			continue
-		}
-
-		prev := *chosen
-
-		*chosen = dm.chooseNewer(*chosen, it)
-		*acks++
-
-		if prev != nil && *chosen != prev {
+		if read.add(dm, dm.fetchOwner(ctx, key, idx, oid)) {
 			stale = append(stale, oid)
 		}
 
-		if *acks >= needed && *chosen != nil { // early break
+		if read.settled(needed) { // early break
 			break
 		}
 	}
 
-	return stale
+	return stale, read
 }
 
 // repairStaleOwners issues best-effort targeted repairs for owners identified as stale.
@@ -2820,18 +2856,16 @@ func (dm *DistMemory) repairStaleOwners(
 }
 
 // fetchOwner attempts to fetch item from given owner (local or remote) updating metrics.
-func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
+func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid cluster.NodeID) ownerReply {
 	if oid == dm.localNode.ID { // local
-		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
-			return it, true
-		}
+		it, ok := dm.lookupLocal(key)
 
-		return nil, false
+		return ownerReply{item: it, live: ok, responded: true}
 	}
 
 	transport := dm.loadTransport()
 	if transport == nil {
-		return nil, false
+		return ownerReply{}
 	}
 
 	it, ok, err := transport.ForwardGet(ctx, string(oid), key)
@@ -2839,29 +2873,30 @@ func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid c
 		if idx == 0 {
 			dm.metrics.readPrimaryPromote.Add(1)
 		}
-
-		return nil, false
 	}
 
-	if !ok {
-		return nil, false
+	if err != nil {
+		return ownerReply{}
 	}
 
-	if idx > 0 { // earlier owner skipped
+	if ok && idx > 0 { // earlier owner skipped
 		dm.metrics.readPrimaryPromote.Add(1)
 	}
 
-	return it, true
+	return ownerReply{item: it, live: ok, responded: true}
 }
 
-// replicateTo sends writes to replicas (best-effort) returning ack count.
-func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) int {
+// replicateTo sends writes to replicas (best-effort) returning ack count and the
+// newest version a replica kept instead of the item (0 if none did).
+func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) (int, uint64) {
 	transport := dm.loadTransport()
 	if transport == nil {
-		return 0
+		return 0, 0
 	}
 
 	acks := 0
+	newest := uint64(0)
+
 	for _, oid := range replicas {
 		if oid == dm.localNode.ID {
 			continue
@@ -2879,6 +2914,15 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 			continue
 		}
 
+		var superseded *supersededError
+		if errors.As(err, &superseded) { // it holds something newer: that counts
+			acks++
+
+			newest = max(newest, superseded.version)
+
+			continue
+		}
+
 		// Queue a hint for ANY transport error — pre-Phase-B this was
 		// gated on ErrBackendNotFound only, so transient HTTP failures
 		// (timeout, 5xx, connection reset) silently dropped replicas.
@@ -2887,7 +2931,7 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 		dm.queueHint(string(oid), item, hintSourceReplication)
 	}
 
-	return acks
+	return acks, newest
 }
 
 // getWithConsistencyParallel performs parallel owner fan-out until quorum/all reached.
@@ -2900,8 +2944,7 @@ func (dm *DistMemory) getWithConsistencyParallel(
 
 	type res struct {
 		owner cluster.NodeID
-		it    *cache.Item
-		ok    bool
+		reply ownerReply
 	}
 
 	ch := make(chan res, len(owners))
@@ -2912,40 +2955,30 @@ func (dm *DistMemory) getWithConsistencyParallel(
 	for idx, oid := range owners { // launch all with proper capture (Go <1.22 style)
 		idxLocal, oidLocal := idx, oid
 		go func(i int, o cluster.NodeID) {
-			it, ok := dm.fetchOwner(ctxFetch, key, i, o)
-			ch <- res{owner: o, it: it, ok: ok}
+			ch <- res{owner: o, reply: dm.fetchOwner(ctxFetch, key, i, o)}
 		}(idxLocal, oidLocal)
 	}
 
-	acks := 0
-
-	var chosen *cache.Item
+	read := &quorumRead{}
 
 	staleOwners := make([]cluster.NodeID, 0, len(owners))
 
 	for range owners {
 		resp := <-ch
-		if !resp.ok {
-			continue
-		}
-
-		prev := chosen
 
-		chosen = dm.chooseNewer(chosen, resp.it)
-		acks++
-
-		if prev != nil && chosen != prev { // newer version found, mark new owner for targeted check (mirrors sequential path semantics)
+		if read.add(dm, resp.reply) { // newer version found, mark new owner for targeted check (mirrors sequential path semantics)
 			staleOwners = append(staleOwners, resp.owner)
 		}
 
-		if acks >= needed && chosen != nil { // early satisfied
+		if read.settled(needed) { // early satisfied
 			cancel()
 
 			break
 		}
 	}
 
-	if acks < needed || chosen == nil {
+	chosen := read.result()
+	if read.acks < needed || chosen == nil {
 		return nil, false
 	}
 
@@ -3150,7 +3183,7 @@ func (dm *DistMemory) processHint(ctx context.Context, nodeID string, entry hint
 	}
 
 	err := transport.ForwardSet(ctx, nodeID, entry.item, false)
-	if err == nil {
+	if err == nil || isSuperseded(err) { // delivered, or no longer needed
 		dm.metrics.hintedReplayed.Add(1)
 
 		if entry.source == hintSourceMigration {
@@ -3584,8 +3617,9 @@ func (dm *DistMemory) repairLocalReplica(ctx context.Context, key string, chosen
 	localIt, ok := dm.shardFor(key).items.Get(key)
 	if !ok || localIt.Version < chosen.Version || (localIt.Version == chosen.Version && localIt.Origin > chosen.Origin) {
 		cloned := *chosen
-		dm.applySet(ctx, &cloned, false)
-		dm.metrics.readRepair.Add(1)
+		if dm.applySet(ctx, &cloned, false) == nil {
+			dm.metrics.readRepair.Add(1)
+		}
 	}
 }
 
@@ -3647,11 +3681,22 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), item, true)
+	// The primary decides the version; whatever this item carries from an
+	// earlier write or read must not pass for it.
+	fwd := *item
+
+	fwd.Version = 0
+	fwd.Origin = ""
+
+	errFwd := transport.ForwardSet(ctx, string(owners[0]), &fwd, true)
 	if errFwd == nil {
 		return false, nil
 	}
 
+	if errors.Is(errFwd, sentinel.ErrQuorumFailed) { // the primary's verdict, not a failure to reach it
+		return false, errFwd
+	}
+
 	// Primary unreachable for any reason — try to promote to a replica
 	// owner. The local node must be in owners[1:] AND still recognize
 	// itself as an owner (defensive against a stale ring snapshot
@@ -3827,8 +3872,6 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 
 	span.SetAttributes(attribute.Int("dist.owners.count", len(owners)))
 
-	promoted := false
-
 	if owners[0] != dm.localNode.ID { // attempt forward; may promote
 		proceedAsPrimary, ferr := dm.handleForwardPrimary(ctx, owners, item)
 		if ferr != nil {
@@ -3838,41 +3881,63 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		if !proceedAsPrimary { // forwarded successfully; nothing else to do
 			return nil
 		}
-
-		promoted = true
 	}
 
-	// primary path: assign version & timestamp
-	item.Version = dm.versionCounter.Add(1)
-	item.Origin = string(dm.localNode.ID)
-	item.LastUpdated = time.Now()
-	dm.applySet(ctx, item, false)
+	acks, err := dm.commitSet(ctx, item, owners)
+
+	span.SetAttributes(attribute.Int("dist.acks", acks))
+
+	return err
+}
+
+// commitSet runs the primary's part of a write: it assigns version and origin,
+// stores the item, replicates it to the other owners and returns how many owners
+// hold it now, with ErrQuorumFailed if these are too few.
+//
+// A promoted replica commits the same way. The original primary is unreachable
+// then but still a listed owner, so replicateTo's failure path queues a hint for
+// it — its post-restart convergence is bounded by hint-replay (~200ms by default)
+// rather than waiting for the next merkle tick.
+func (dm *DistMemory) commitSet(ctx context.Context, item *cache.Item, owners []cluster.NodeID) (int, error) {
+	acks := 0
+
+	for {
+		item.Version = dm.versionCounter.Add(1)
+		item.Origin = string(dm.localNode.ID)
+		item.LastUpdated = time.Now()
+
+		// Losing to a concurrent newer write here is last-write-wins at work.
+		_ = dm.applySet(ctx, item, false)
 
-	// When we promoted, the original primary is unreachable but still
-	// a listed owner. Pass the full owners list (not owners[1:]) so
-	// replicateTo's existing failure-path queues a hint for the dead
-	// primary — its post-restart convergence is bounded by hint-replay
-	// (~200ms by default) rather than waiting for the next merkle tick.
-	// replicateTo already skips the local node, so adding owners[0]
-	// back in doesn't cause a self-forward.
-	replicas := owners[1:]
-	if promoted {
-		replicas = owners
+		replAcks, newest := dm.replicateTo(ctx, item, owners)
+		acks = 1 + replAcks
+
+		// A replica kept a version this node had not heard of (it restarted, or
+		// just took the key over): decide again, above that version.
+		if newest == 0 || dm.holdsNewer(item.Key, item.Version) {
+			break
+		}
+
+		dm.observeVersion(newest)
 	}
 
-	acks := 1 + dm.replicateTo(ctx, item, replicas)
 	dm.metrics.writeAcks.Add(int64(acks))
 
-	span.SetAttributes(attribute.Int("dist.acks", acks))
-
-	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
-	if acks < needed {
+	if acks < dm.requiredAcks(len(owners), dm.writeConsistency) {
 		dm.metrics.writeQuorumFailures.Add(1)
 
-		return sentinel.ErrQuorumFailed
+		return acks, sentinel.ErrQuorumFailed
 	}
 
-	return nil
+	return acks, nil
+}
+
+// holdsNewer reports whether this node's copy or tombstone of key is newer than
+// version.
+func (dm *DistMemory) holdsNewer(key string, version uint64) bool {
+	it, _ := dm.lookupLocal(key)
+
+	return it != nil && it.Version > version
 }
 
 // removeImpl is the business logic for Remove. Mirrors setImpl's
@@ -3897,7 +3962,7 @@ func (dm *DistMemory) removeImpl(ctx context.Context, keys []string) error {
 		}
 
 		if owners[0] == dm.localNode.ID { // primary path
-			dm.applyRemove(ctx, key, true)
+			_ = dm.applyRemove(ctx, key, true) // replication is best-effort
 
 			continue
 		}
@@ -3943,9 +4008,8 @@ func (dm *DistMemory) forwardOrPromoteRemove(
 		for _, oid := range owners[1:] {
 			if oid == dm.localNode.ID && dm.ownsKeyInternal(key) {
 				dm.metrics.writeForwardPromotion.Add(1)
-				dm.applyRemove(ctx, key, true)
 
-				return nil
+				return dm.applyRemove(ctx, key, true)
 			}
 		}
 	}
@@ -4459,14 +4523,25 @@ func (dm *DistMemory) setupOTelMetrics() {
 // re-fanned-back → stuck again" loop on a 5-node cluster, even
 // though MembershipVersion was stable (views were merely diverged,
 // not actively churning).
-func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// A client's write that another node forwarded to this one as the key's primary
+// (replicate set, no version assigned yet) is committed here exactly like a write
+// by a local client: versioned, replicated, and acknowledged only if enough
+// owners hold it.
+func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) error {
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return
+		return nil
+	}
+
+	if replicate && item.Version == 0 && dm.ring != nil {
+		_, err := dm.commitSet(ctx, item, dm.ring.Lookup(item.Key))
+
+		return err
 	}
 
-	dm.applySet(ctx, item, replicate)
+	return dm.applySet(ctx, item, replicate)
 }
 
 // applySet stores item locally and optionally replicates to other owners.
@@ -4477,7 +4552,11 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 // ownership guard fires; direct callers (primary write, migration,
 // merkle pull, read-repair) bypass the guard because they've already
 // verified ownership or explicitly want to plant regardless.
-func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// Every copy that arrives late, twice or out of order is compared with what
+// this node already holds: an item that is older than the stored one, or not
+// newer than the key's tombstone, is not stored, and a *supersededError says so.
+func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) error {
 	sh := dm.shardFor(item.Key)
 
 	// Clone the key STRING data (not just the Item struct) before
@@ -4498,17 +4577,18 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	cloned := *item
 
 	cloned.Key = stableKey
-	sh.items.Set(stableKey, &cloned)
+
+	err := dm.storeNewer(sh, &cloned)
 
 	if !replicate || dm.ring == nil {
-		return
+		return err
 	}
 
 	owners := dm.ring.Lookup(item.Key)
 	transport := dm.loadTransport()
 
 	if len(owners) <= 1 || transport == nil {
-		return
+		return err
 	}
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
@@ -4520,6 +4600,117 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
 	}
+
+	return err
+}
+
+// supersededError reports that a node kept what it holds for a key because it
+// wins over the write or removal it was sent. The sender has nothing to retry
+// unless it decided that write's version itself, unaware of the newer one.
+type supersededError struct {
+	version uint64 // version of what the node holds
+}
+
+func (e *supersededError) Error() string {
+	return "superseded by version " + strconv.FormatUint(e.version, 10)
+}
+
+// isSuperseded reports whether err says that the receiver holds something newer.
+func isSuperseded(err error) bool {
+	var superseded *supersededError
+
+	return errors.As(err, &superseded)
+}
+
+// storeNewer stores item unless this node already holds something that wins
+// over it: a newer version of the key (ties go to the smaller origin, the rule
+// chooseNewer applies) or a tombstone at least as new. The shard keeps the
+// pointer, so the caller must not reuse item.
+func (dm *DistMemory) storeNewer(sh *distShard, item *cache.Item) error {
+	dm.observeVersion(item.Version)
+
+	sh.versionMu.Lock()
+	defer sh.versionMu.Unlock()
+
+	if tomb, buried := sh.tombs[item.Key]; buried && item.Version <= tomb.version {
+		return &supersededError{version: tomb.version}
+	}
+
+	if cur, held := sh.items.Get(item.Key); held && isHigherVersion(cur, item) {
+		return &supersededError{version: cur.Version}
+	}
+
+	dm.forgetTombstone(sh, item.Key)
+	sh.items.Set(item.Key, item)
+
+	return nil
+}
+
+// entomb records tomb and drops the item it covers, unless this node holds a
+// newer item or tombstone; a *supersededError says so.
+func (dm *DistMemory) entomb(sh *distShard, key string, tomb tombstone) error {
+	dm.observeVersion(tomb.version)
+
+	sh.versionMu.Lock()
+	defer sh.versionMu.Unlock()
+
+	prev, buried := sh.tombs[key]
+	if buried && prev.version >= tomb.version {
+		return nil // deleted already
+	}
+
+	if cur, held := sh.items.Get(key); held && cur.Version > tomb.version {
+		return &supersededError{version: cur.Version}
+	}
+
+	sh.items.Remove(key)
+
+	sh.tombs[key] = tomb
+
+	if !buried {
+		dm.metrics.tombstonesActive.Add(1)
+	}
+
+	return nil
+}
+
+// forgetTombstone drops key's tombstone, if any; call with sh.versionMu held.
+func (dm *DistMemory) forgetTombstone(sh *distShard, key string) {
+	if _, buried := sh.tombs[key]; buried {
+		delete(sh.tombs, key)
+		dm.metrics.tombstonesActive.Add(-1)
+	}
+}
+
+// lookupLocal reads this node's own copy of key. For a key it deleted, ok is
+// false and the returned item carries nothing but the tombstone's version and
+// origin, so that peers can tell "deleted" from "never seen".
+func (dm *DistMemory) lookupLocal(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	if it, ok := sh.items.GetCopy(key); ok {
+		return it, true
+	}
+
+	sh.versionMu.Lock()
+	defer sh.versionMu.Unlock()
+
+	if tomb, ok := sh.tombs[key]; ok {
+		return &cache.Item{Key: key, Version: tomb.version, Origin: tomb.origin}, false
+	}
+
+	return nil, false
+}
+
+// observeVersion advances this node's version counter past a version it has
+// seen, so that whatever it writes next supersedes it.
+func (dm *DistMemory) observeVersion(version uint64) {
+	for {
+		cur := dm.versionCounter.Load()
+		if cur >= version || dm.versionCounter.CompareAndSwap(cur, version) {
+			return
+		}
+	}
 }
 
 // replicateSetWithSpan opens a child span around a single replica
@@ -4588,51 +4779,91 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 }
 
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
-func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
+func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) error {
 	sh := dm.shardFor(key)
-	// capture version from existing item (if any) and increment for tombstone
-	var nextVer uint64
 
-	if it, ok := sh.items.Get(key); ok && it != nil {
-		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
+	// Clone the key: HTTP handlers pass strings backed by pooled buffers
+	// (see applySet), and the tombstone outlives the request.
+	key = strings.Clone(key)
 
-		nextVer = ci.Version + 1
+	if tomb, carried := removalFromContext(ctx); carried {
+		return dm.entomb(sh, key, tombstone{version: tomb.version, origin: tomb.origin, at: time.Now()})
 	}
 
-	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
-		nextVer = dm.tombVersionCounter.Add(1)
-	}
+	for { // this node decides the deletion's place in the version order
+		tomb := tombstone{version: dm.versionCounter.Add(1), origin: string(dm.localNode.ID), at: time.Now()}
 
-	sh.items.Remove(key)
+		// Losing to a concurrent newer write here is last-write-wins at work.
+		_ = dm.entomb(sh, key, tomb)
 
-	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-	dm.metrics.tombstonesActive.Store(dm.countTombstones())
+		if !replicate {
+			return nil
+		}
 
+		// As in commitSet: a replica that kept a version this node had not
+		// heard of makes it decide again, above that version.
+		newest := dm.replicateRemove(ctx, key, tomb)
+		if newest == 0 || dm.holdsNewer(key, tomb.version) {
+			return nil
+		}
+
+		dm.observeVersion(newest)
+	}
+}
+
+// replicateRemove sends a deletion to the key's other owners (best-effort) and
+// returns the newest version one of them kept in spite of it (0 if none did).
+func (dm *DistMemory) replicateRemove(ctx context.Context, key string, tomb tombstone) uint64 {
 	transport := dm.loadTransport()
-	if !replicate || dm.ring == nil || transport == nil {
-		return
+	if dm.ring == nil || transport == nil {
+		return 0
 	}
 
 	owners := dm.ring.Lookup(key)
 	if len(owners) <= 1 {
-		return
+		return 0
 	}
 
 	dm.metrics.replicaFanoutRemove.Add(int64(len(owners) - 1))
 
-	for _, oid := range owners[1:] {
+	// Replicas record the same tombstone rather than one of their own making,
+	// so that delayed older writes stay refused and newer ones are not.
+	ctx = contextWithRemoval(ctx, tomb)
+
+	newest := uint64(0)
+
+	for _, oid := range owners {
 		if oid == dm.localNode.ID {
 			continue
 		}
 
-		dm.replicateRemoveWithSpan(ctx, transport, oid, key)
+		var superseded *supersededError
+		if errors.As(dm.replicateRemoveWithSpan(ctx, transport, oid, key), &superseded) {
+			newest = max(newest, superseded.version)
+		}
 	}
+
+	return newest
+}
+
+// removalCtxKey is the context key under which a replicated removal carries the
+// tombstone its primary recorded.
+type removalCtxKey struct{}
+
+func contextWithRemoval(ctx context.Context, tomb tombstone) context.Context {
+	return context.WithValue(ctx, removalCtxKey{}, tomb)
+}
+
+func removalFromContext(ctx context.Context) (tombstone, bool) {
+	tomb, ok := ctx.Value(removalCtxKey{}).(tombstone)
+
+	return tomb, ok
 }
 
 // replicateRemoveWithSpan mirrors replicateSetWithSpan for tombstone
 // fan-out — keeps the trace tree symmetric so a Set followed by a
 // Remove has the same shape under tracing.
-func (dm *DistMemory) replicateRemoveWithSpan(ctx context.Context, transport DistTransport, oid cluster.NodeID, key string) {
+func (dm *DistMemory) replicateRemoveWithSpan(ctx context.Context, transport DistTransport, oid cluster.NodeID, key string) error {
 	ctx, span := dm.tracer.Start(
 		ctx, "dist.replicate.remove",
 		trace.WithAttributes(attribute.String("peer.id", string(oid))),
@@ -4644,6 +4875,8 @@ func (dm *DistMemory) replicateRemoveWithSpan(ctx context.Context, transport Dis
 		span.RecordError(err)
 		span.SetStatus(codes.Error, err.Error())
 	}
+
+	return err
 }
 
 // runHeartbeatTick runs one heartbeat iteration (best-effort).
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 535267c..9952f67 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -11,9 +11,17 @@ import (
 )
 
 // DistTransport defines forwarding operations needed by DistMemory.
+//
+// ForwardSet and ForwardRemove fail with a *supersededError when the node kept
+// something newer than what it was sent.
 type DistTransport interface {
 	ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error
+	// ForwardGet reads the node's own copy of key. When the node does not hold
+	// it (false), a non-nil item carries the version and origin of the tombstone
+	// the node keeps for it; nil means it knows nothing about the key.
 	ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error)
+	// ForwardRemove removes key on the node. The context of a replicated removal
+	// carries the tombstone to record there (see contextWithRemoval).
 	ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error
 	Health(ctx context.Context, nodeID string) error
 	// IndirectHealth asks `relayNodeID` to probe `targetNodeID` on the
@@ -151,9 +159,7 @@ func (t *InProcessTransport) ForwardSet(ctx context.Context, nodeID string, item
 	// Forwarded arrival: ownership guard fires if the receiver's
 	// ring view says this node isn't an owner of the key. Stops
 	// divergent-view senders from planting stuck keys.
-	b.applyForwardedSet(ctx, item, replicate)
-
-	return nil
+	return b.applyForwardedSet(ctx, item, replicate)
 }
 
 // ForwardGet forwards a get operation to the specified backend node.
@@ -163,12 +169,9 @@ func (t *InProcessTransport) ForwardGet(_ context.Context, nodeID, key string) (
 		return nil, false, sentinel.ErrBackendNotFound
 	}
 
-	it, ok2 := b.shardFor(key).items.GetCopy(key)
-	if !ok2 {
-		return nil, false, nil
-	}
+	it, ok2 := b.lookupLocal(key)
 
-	return it, true, nil
+	return it, ok2, nil
 }
 
 // ForwardRemove forwards a remove operation.
@@ -178,9 +181,7 @@ func (t *InProcessTransport) ForwardRemove(ctx context.Context, nodeID, key stri
 		return sentinel.ErrBackendNotFound
 	}
 
-	b.applyRemove(ctx, key, replicate)
-
-	return nil
+	return b.applyRemove(ctx, key, replicate)
 }
 
 // Health probes a backend.
-- 
2.43.0


From b80da97088e27fcd3a0304fcfd2e7b54c1719134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 48/84] fix: an item's lifetime survives the HTTP transport

Items are fetched with their lifetime in nanoseconds but it was read as
milliseconds, a millionfold extension; and forwarding truncated lifetimes below
one millisecond to 0, which means no expiry.
---
 pkg/backend/dist_http_transport.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 51f8b11..737651d 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -152,12 +152,23 @@ const (
 	errMsgDoRequest  = "do request"
 )
 
+// expirationMillis converts a lifetime to the milliseconds the wire carries,
+// rounding up: 0 would mean that the item never expires.
+func expirationMillis(d time.Duration) int64 {
+	ms := d.Milliseconds()
+	if d > 0 && d%time.Millisecond != 0 {
+		ms++
+	}
+
+	return ms
+}
+
 // ForwardSet sends a Set/Replicate request to a remote node.
 func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error {
 	reqBody := httpSetRequest{
 		Key:        item.Key,
 		Value:      item.Value,
-		Expiration: item.Expiration.Milliseconds(),
+		Expiration: expirationMillis(item.Expiration),
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
@@ -304,7 +315,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
+			Expiration:  time.Duration(mirror.Expiration), // nanoseconds, as cache.Item marshals it
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-- 
2.43.0


From 8b86af92ae6403ee1e683771aafdac6c454f9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 49/84] fix: an item's remaining lifetime survives the HTTP
 transport

Fetched, replicated, migrated and hinted copies started their lifetime anew, so
that an expired item fetched from a peer was served as live.
---
 pkg/backend/dist_http_server.go    |  4 ++--
 pkg/backend/dist_http_transport.go | 12 +++++++++++-
 pkg/backend/dist_http_types.go     | 20 ++++++++++++++++++++
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index eb00418..dc673d0 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -385,7 +385,7 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		Version:     req.Version,
 		Origin:      req.Origin,
 		LastUpdated: time.Now(),
-		LastAccess:  time.Now(),
+		LastAccess:  accessedBefore(req.AgeNs),
 	}
 
 	// Forwarded arrival from a peer: ownership guard fires if this
@@ -434,7 +434,7 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	it, ok := dm.lookupLocal(key)
 
-	return fctx.JSON(httpGetResponse{Found: ok, Item: it})
+	return fctx.JSON(httpGetResponse{Found: ok, Item: it, AgeNs: ageNs(it)})
 }
 
 func (s *distHTTPServer) registerGet(dm *DistMemory) {
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 737651d..348902f 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -172,6 +172,7 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
+		AgeNs:      ageNs(item),
 	}
 
 	payloadBytes, err := json.Marshal(&reqBody)
@@ -293,6 +294,15 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		}
 	}
 
+	var age int64
+
+	if ab, ok := raw["age_ns"]; ok {
+		err := json.Unmarshal(ab, &age)
+		if err != nil {
+			return nil, false, ewrap.Wrap(err, "unmarshal age")
+		}
+	}
+
 	ib, ok := raw["item"]
 	if !found && (!ok || string(ib) == "null") { // a miss, and no tombstone either
 		return nil, false, nil
@@ -319,7 +329,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-			LastAccess:  time.Now(),
+			LastAccess:  accessedBefore(age),
 		}, found, nil
 	}
 
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index ad72fa2..500c31a 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,6 +1,8 @@
 package backend
 
 import (
+	"time"
+
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -12,6 +14,7 @@ type httpSetRequest struct { // shared with server & transport
 	Version    uint64 `json:"version"`
 	Origin     string `json:"origin"`
 	Replicate  bool   `json:"replicate"`
+	AgeNs      int64  `json:"age_ns,omitempty"` // time since the last access (see ageNs)
 }
 
 // httpSetResponse answers a set; removals answer with the same shape.
@@ -24,4 +27,21 @@ type httpGetResponse struct {
 	Found bool        `json:"found"`
 	Item  *cache.Item `json:"item,omitempty"`
 	Error string      `json:"error,omitempty"`
+	AgeNs int64       `json:"age_ns,omitempty"` // time since the last access (see ageNs)
+}
+
+// ageNs returns how long ago item was last accessed, which its lifetime counts
+// from. An age travels between nodes rather than a time of day: it does not
+// depend on their clocks agreeing.
+func ageNs(item *cache.Item) int64 {
+	if item == nil || item.LastAccess.IsZero() {
+		return 0
+	}
+
+	return max(0, time.Since(item.LastAccess).Nanoseconds())
+}
+
+// accessedBefore is the inverse of ageNs.
+func accessedBefore(age int64) time.Time {
+	return time.Now().Add(-time.Duration(max(0, age)))
 }
-- 
2.43.0


From 7dcadaa68b8143e4d0b818adfd04405ee8d0fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:48 +0000
Subject: [PATCH 50/84] fix: the hint queue accounts for the hints it drops

Dropping the oldest hint of a full queue adjusted the totals but, when the new
hint was then refused by a global cap, left the queue as it was: the totals
drifted to zero and the caps stopped holding. Nor was a hint dropped that way
counted anywhere, and the byte gauge could be left stale.
---
 docs/operations.md         |  4 ++--
 pkg/backend/dist_memory.go | 37 ++++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/docs/operations.md b/docs/operations.md
index e04e1fc..8420fb8 100644
--- a/docs/operations.md
+++ b/docs/operations.md
@@ -65,8 +65,8 @@ cannot reach quorum. The minority returns `ErrQuorumFailed` (`sentinel.ErrQuorum
 hint. Eventually the queue hits `WithDistHintMaxPerNode` or `WithDistHintMaxBytes` and new hints get dropped.
 
 **Detection.** `dist.hinted.bytes` (gauge) climbs steadily. `dist.hinted.global_dropped` increments when caps
-are exceeded. `dist.hinted.dropped` (a different metric — replay errors) also rises if the peer is reachable
-but rejecting writes (auth, schema mismatch).
+are exceeded. `dist.hinted.dropped` (a different metric) increments when a full per-node queue drops its oldest
+hint to make room for a new one.
 
 **Resolution.**
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 11f4b9f..2ea6cc6 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1272,7 +1272,7 @@ type distMetrics struct {
 	hintedQueued                 atomic.Int64 // hints queued (both sources)
 	hintedReplayed               atomic.Int64 // hints successfully replayed
 	hintedExpired                atomic.Int64 // hints expired before delivery
-	hintedDropped                atomic.Int64 // Deprecated: no longer bumped — processHint retains on any error; OTel-registered for stability
+	hintedDropped                atomic.Int64 // dropped to make room in a full per-node queue (processHint retains on any error)
 	hintedGlobalDropped          atomic.Int64 // hints dropped due to global caps (count/bytes)
 	hintedBytes                  atomic.Int64 // approximate total bytes currently queued (best-effort)
 	migrationHintQueued          atomic.Int64 // subset of hintedQueued: rebalance migration source only
@@ -3007,15 +3007,15 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 
 	queue := dm.hints[nodeID]
 
-	if dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode { // drop oldest
-		dropped := queue[0]
-
-		queue = queue[1:]
+	evict := dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode // queue full: the oldest makes room
 
-		dm.adjustHintAccounting(-1, -dropped.size)
+	total, bytes := dm.hintTotal, dm.hintBytes
+	if evict {
+		total--
+		bytes -= queue[0].size
 	}
 
-	if (dm.hintMaxTotal > 0 && dm.hintTotal >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes+size > dm.hintMaxBytes) {
+	if (dm.hintMaxTotal > 0 && total >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && bytes+size > dm.hintMaxBytes) {
 		dm.hintsMu.Unlock()
 		dm.metrics.hintedGlobalDropped.Add(1)
 
@@ -3026,6 +3026,19 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		return
 	}
 
+	if evict { // drop oldest
+		dropped := queue[0]
+
+		queue = queue[1:]
+
+		dm.adjustHintAccounting(-1, -dropped.size)
+		dm.metrics.hintedDropped.Add(1)
+
+		if dropped.source == hintSourceMigration {
+			dm.metrics.migrationHintDropped.Add(1)
+		}
+	}
+
 	cloned := *item
 
 	now := time.Now()
@@ -3040,14 +3053,12 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	dm.hints[nodeID] = queue
 	dm.adjustHintAccounting(1, size)
 
-	// Snapshot under the lock — pre-Phase-B this read happened after
-	// Unlock and raced with adjustHintAccounting in the replay loop.
-	bytesNow := dm.hintBytes
-
+	// Published under the lock — otherwise a store that lost the race with
+	// the replay loop's would leave the gauge wrong.
+	dm.metrics.hintedBytes.Store(dm.hintBytes)
 	dm.hintsMu.Unlock()
 
 	dm.metrics.hintedQueued.Add(1)
-	dm.metrics.hintedBytes.Store(bytesNow)
 
 	if source == hintSourceMigration {
 		dm.metrics.migrationHintQueued.Add(1)
@@ -4190,7 +4201,7 @@ var distMetricSpecs = []distMetricSpec{
 	},
 	{
 		name: "dist.hinted.dropped", unit: unitHint, counter: true,
-		desc: "Hints dropped after replay error (non-recoverable)",
+		desc: "Hints dropped to make room in a full per-node queue",
 		get:  func(m DistMetrics) int64 { return m.HintedDropped },
 	},
 	{
-- 
2.43.0


From e22b90d9c22368894e1098aabfc34c52bb44c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:48 +0000
Subject: [PATCH 51/84] fix: anti-entropy pulls missing keys through any
 transport

Keys that only the peer holds were looked for through the bare HTTP or
in-process transport; with fault injection configured (a wrapped transport)
they were never found. And the cap on pulled keys was applied before those
already present were left out, so that keys beyond it were never pulled.
---
 pkg/backend/dist_memory.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 2ea6cc6..85956f8 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1764,27 +1764,30 @@ func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, ent
 		return missing
 	}
 
-	httpT, ok := dm.loadTransport().(*DistHTTPTransport)
-	if !ok {
+	transport := dm.loadTransport() // HTTP, or a wrapper around whatever transport (chaos)
+	if transport == nil {
 		return missing
 	}
 
-	keys, kerr := httpT.ListKeys(ctx, nodeID, "")
+	keys, kerr := transport.ListKeys(ctx, nodeID, "")
 	if kerr != nil || len(keys) == 0 {
 		return missing
 	}
 
-	if dm.listKeysMax > 0 && len(keys) > dm.listKeysMax { // cap enforcement
-		keys = keys[:dm.listKeysMax]
+	have := make(map[string]struct{}, len(entries))
+	for _, e := range entries {
+		have[e.k] = struct{}{}
 	}
 
-	mset := make(map[string]struct{}, len(keys))
-	for _, k := range keys { // populate
-		mset[k] = struct{}{}
-	}
+	mset := make(map[string]struct{})
+	for _, k := range keys {
+		if dm.listKeysMax > 0 && len(mset) >= dm.listKeysMax { // cap enforcement; the next sync pulls on
+			break
+		}
 
-	for _, e := range entries { // remove existing
-		delete(mset, e.k)
+		if _, ok := have[k]; !ok {
+			mset[k] = struct{}{}
+		}
 	}
 
 	// track number of remote-only keys discovered via fallback
-- 
2.43.0


From 5c870a0aeff10a0ad8669a775931881385b8c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 52/84] fix: the expiration sweep of a distributed cache
 removes expired copies only

It read the key and then removed it from the whole cluster: a value written in
between was deleted everywhere. Drop this node's copy, if it is (still) expired.
---
 hypercache_expiration.go   | 10 ++++++++++
 pkg/backend/dist_memory.go | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index a093f56..27426c6 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -200,6 +200,16 @@ func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string)
 		return removed && err == nil, err
 	}
 
+	if dm, ok := any(hyperCache.backend).(*backend.DistMemory); ok {
+		item, removed := dm.RemoveExpired(key)
+		if removed {
+			hyperCache.memoryAllocation.Add(-item.Size)
+			hyperCache.evictionAlgorithm.Delete(key)
+		}
+
+		return removed, nil
+	}
+
 	if item, ok := hyperCache.backend.Get(ctx, key); ok && !item.Expired() {
 		return false, nil
 	}
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 85956f8..8b96443 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1162,6 +1162,26 @@ func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 	return err
 }
 
+// RemoveExpired drops this node's copy of key if it has expired by now, and
+// returns it. Every owner's copy expires by itself, so unlike Remove this
+// neither leaves a tombstone nor involves other nodes, and a copy written in
+// the meantime stays.
+func (dm *DistMemory) RemoveExpired(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	sh.versionMu.Lock()
+	defer sh.versionMu.Unlock()
+
+	item, ok := sh.items.GetCopy(key)
+	if !ok || !item.Expired() {
+		return nil, false
+	}
+
+	sh.items.Remove(key)
+
+	return item, true
+}
+
 // Clear wipes all shards.
 func (dm *DistMemory) Clear(ctx context.Context) error {
 	done := make(chan struct{})
-- 
2.43.0


From 380af9650a25da57fb9c983c399e851fe42249bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 53/84] fix: a distributed Clear is over when it returns

It wiped the shards in a goroutine that outlived a cancelled call and deleted
what was written after it.
---
 pkg/backend/dist_memory.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 8b96443..fed4bba 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1182,24 +1182,20 @@ func (dm *DistMemory) RemoveExpired(key string) (*cache.Item, bool) {
 	return item, true
 }
 
-// Clear wipes all shards.
+// Clear wipes all shards. Once it has returned nothing is wiped any more: a
+// cancelled Clear stops between shards.
 func (dm *DistMemory) Clear(ctx context.Context) error {
-	done := make(chan struct{})
-
-	go func() {
-		for _, s := range dm.shards {
-			s.items.Clear()
+	for _, s := range dm.shards {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
 		}
 
-		close(done)
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
-		return sentinel.ErrTimeoutOrCanceled
+		s.versionMu.Lock()
+		s.items.Clear()
+		s.versionMu.Unlock()
 	}
+
+	return nil
 }
 
 // LocalContains returns true if key exists in local shard (ignores ownership).
-- 
2.43.0


From f54214a73a822a41531737c7422a7ff0085bf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 54/84] fix: stopping a distributed node does not race with its
 users

Stop reset the repair queue, metric registration and HTTP server fields while
reads and handlers still used them; and a server stopped before its serve
goroutine had started kept its listener open.
---
 pkg/backend/dist_http_server.go | 17 +++++++++++++++--
 pkg/backend/dist_memory.go      | 12 +-----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index dc673d0..c5ef5a1 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -725,7 +725,7 @@ func (s *distHTTPServer) listen(ctx context.Context) error {
 		// which would otherwise flood test output at -count=N (see hundreds
 		// of "INFO Server started on..." lines drowning real failures).
 		serveErr := s.app.Listener(ln, fiber.ListenConfig{DisableStartupMessage: true})
-		if serveErr != nil {
+		if serveErr != nil && !errors.Is(serveErr, net.ErrClosed) {
 			// Stash so operators can read it via LastServeError(); a
 			// listener that crashed silently is the worst kind of
 			// production bug. Also surface to the structured logger when
@@ -756,5 +756,18 @@ func (s *distHTTPServer) stop(ctx context.Context) error {
 	// the previous `go func() { ch <- s.app.Shutdown() }()` pattern which
 	// leaked the shutdown goroutine when our ctx fired before fiber
 	// finished draining.
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// The serve goroutine may not have handed the listener to fiber yet, which
+	// then has nothing to shut down: closing it here keeps it from being served.
+	closeErr := s.ln.Close()
+	if err == nil {
+		err = closeErr
+	}
+
+	if errors.Is(err, net.ErrClosed) { // nothing left to close
+		return nil
+	}
+
+	return err
 }
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index fed4bba..d05cdc8 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1513,8 +1513,6 @@ func (dm *DistMemory) Stop(ctx context.Context) error {
 		// stop() blocks until the flusher goroutine emits its final
 		// flushAll and exits.
 		dm.repairQueue.stop()
-
-		dm.repairQueue = nil
 	}
 
 	// Unregister the OTel metric callback before tearing down the HTTP
@@ -1528,18 +1526,10 @@ func (dm *DistMemory) Stop(ctx context.Context) error {
 		if err != nil {
 			dm.logger.Error("dist meter: callback unregister failed", slog.Any("err", err))
 		}
-
-		dm.metricRegistration = nil
 	}
 
 	if dm.httpServer != nil {
-		err := dm.httpServer.stop(ctx) // best-effort
-
-		dm.httpServer = nil
-
-		if err != nil {
-			return err
-		}
+		return dm.httpServer.stop(ctx) // best-effort
 	}
 
 	return nil
-- 
2.43.0


From c6e67639aaf4c3641894a16aafcce857b5aa1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 55/84] fix: rebalancing keeps a key until its owners have it

- A migration that could be neither delivered nor queued dropped the local copy.
- A new replica that was unreachable, or cut off by the per-tick limit, was
  taken for served and never got the key.
- When the primary left and a node without the key took over, nobody sent it.
- A removal grace went on counting from a loss of ownership already made good.
- Releasing a migrated copy could drop a newer one written meanwhile.
---
 pkg/backend/dist_memory.go | 111 ++++++++++++++++++++++++++++++-------
 1 file changed, 91 insertions(+), 20 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index d05cdc8..4e79549 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2096,7 +2096,8 @@ func (dm *DistMemory) collectRebalanceCandidates() []cache.Item {
 }
 
 // shouldRebalance determines if the item should be migrated away.
-// Triggers when this node lost all ownership or was previously primary and is no longer.
+// Triggers when this node lost all ownership, or when the primary changed and the
+// previous one cannot hand the item over: it is this node, or it left the cluster.
 func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 	if !dm.ownsKeyInternal(it.Key) { // lost all ownership
 		if dm.removalGracePeriod > 0 && sh.removedAt != nil { // record timestamp if not already
@@ -2112,6 +2113,8 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return true
 	}
 
+	dm.forgetRemoval(sh, it.Key) // owned (again): a later loss gets its full grace
+
 	if dm.ring == nil || sh.originalPrimary == nil { // nothing else to compare
 		return false
 	}
@@ -2132,7 +2135,31 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return false
 	}
 
-	return prevPrimary == dm.localNode.ID && curPrimary != dm.localNode.ID
+	if prevPrimary == curPrimary || curPrimary == dm.localNode.ID {
+		return false
+	}
+
+	return prevPrimary == dm.localNode.ID || !dm.isMember(prevPrimary)
+}
+
+// isMember reports whether id is in this node's membership view.
+func (dm *DistMemory) isMember(id cluster.NodeID) bool {
+	if dm.membership == nil {
+		return false
+	}
+
+	return slices.ContainsFunc(dm.membership.List(), func(n *cluster.Node) bool { return n.ID == id })
+}
+
+// forgetRemoval drops the mark that starts a key's removal grace.
+func (dm *DistMemory) forgetRemoval(sh *distShard, key string) {
+	if dm.removalGracePeriod <= 0 || sh.removedAt == nil {
+		return
+	}
+
+	sh.removedAtMu.Lock()
+	delete(sh.removedAt, key)
+	sh.removedAtMu.Unlock()
 }
 
 // replicateNewReplicas scans for keys where this node is still primary but new replica owners were added since first observation.
@@ -2190,8 +2217,15 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 			continue
 		}
 
-		processed = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
-		dm.setOwnerBaseline(sh, it.Key, owners)
+		delivered := dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
+
+		processed += len(delivered)
+
+		if len(delivered) == len(newRepls) {
+			dm.setOwnerBaseline(sh, it.Key, owners)
+		} else { // the rest (throttled or unreachable) is still due next tick
+			dm.extendOwnerBaseline(sh, it.Key, delivered)
+		}
 	}
 
 	return processed
@@ -2243,37 +2277,48 @@ func (*DistMemory) computeNewReplicas(sh *distShard, key string, owners []cluste
 	return out
 }
 
+// sendReplicaDiff sends the item to new replicas, as far as the per-tick limit
+// goes, and returns those that have it now.
 func (dm *DistMemory) sendReplicaDiff(
 	ctx context.Context,
 	it *cache.Item,
 	repls []cluster.NodeID,
 	processed, limit int,
-) int {
+) []cluster.NodeID {
 	transport := dm.loadTransport()
 	if transport == nil {
-		return processed
+		return nil
 	}
 
+	delivered := make([]cluster.NodeID, 0, len(repls))
+
 	for _, rid := range repls {
-		if rid == dm.localNode.ID {
+		err := transport.ForwardSet(ctx, string(rid), it, false)
+		if err != nil && !isSuperseded(err) {
 			continue
 		}
 
-		_ = transport.ForwardSet(ctx, string(rid), it, false)
-
 		dm.metrics.replicaFanoutSet.Add(1)
 		dm.metrics.rebalancedKeys.Add(1)
 		dm.metrics.rebalanceReplicaDiff.Add(1)
 
-		processed++
-		if limit > 0 && processed >= limit {
+		delivered = append(delivered, rid)
+
+		if limit > 0 && processed+len(delivered) >= limit {
 			dm.metrics.rebalanceReplicaDiffThrottle.Add(1)
 
-			return processed
+			break
 		}
 	}
 
-	return processed
+	return delivered
+}
+
+func (*DistMemory) extendOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
+	sh.originalOwnersMu.Lock()
+
+	sh.originalOwners[key] = append(slices.Clone(sh.originalOwners[key]), owners...)
+	sh.originalOwnersMu.Unlock()
 }
 
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
@@ -2371,7 +2416,8 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// replicate=false; the new primary's own rebalance/replica-diff
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
-	if migrationErr != nil && !isSuperseded(migrationErr) {
+	secured := migrationErr == nil || isSuperseded(migrationErr)
+	if !secured {
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
 			slog.String("key", item.Key),
@@ -2379,7 +2425,13 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 			slog.Any("err", migrationErr),
 		)
 
-		dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		secured = dm.queueHint(string(owners[0]), item, hintSourceMigration)
+	}
+
+	if !secured { // neither delivered nor queued: this copy stays, and the next tick tries again
+		dm.forgetRemoval(dm.shardFor(item.Key), item.Key)
+
+		return
 	}
 
 	// Update originalPrimary so a future primary-shift comparison
@@ -2414,11 +2466,22 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 
 			sh.removedAtMu.Unlock()
 		} else {
-			sh.items.Remove(item.Key)
+			releaseCopy(sh, item)
 		}
 	}
 }
 
+// releaseCopy drops this node's copy of a migrated item, unless it has been
+// replaced by a newer one since.
+func releaseCopy(sh *distShard, item *cache.Item) {
+	sh.versionMu.Lock()
+	defer sh.versionMu.Unlock()
+
+	if cur, ok := sh.items.Get(item.Key); ok && !isHigherVersion(cur, item) {
+		sh.items.Remove(item.Key)
+	}
+}
+
 // shedRemovedKeys deletes keys for which this node is no longer an owner after grace period.
 // Best-effort: we iterate shards, check removal timestamps, and remove local copy if grace elapsed.
 func (dm *DistMemory) shedRemovedKeys() {
@@ -3001,9 +3064,12 @@ func (dm *DistMemory) getWithConsistencyParallel(
 }
 
 // --- Hinted handoff implementation ---.
-func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) { // reduced complexity
+
+// queueHint queues the item for a node that could not be reached. Reports
+// whether it did: hints may be disabled, or a global cap reached.
+func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) bool { // reduced complexity
 	if dm.hintTTL <= 0 {
-		return
+		return false
 	}
 
 	size := dm.approxHintSize(item)
@@ -3032,7 +3098,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 			dm.metrics.migrationHintDropped.Add(1)
 		}
 
-		return
+		return false
 	}
 
 	if evict { // drop oldest
@@ -3072,6 +3138,8 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	if source == hintSourceMigration {
 		dm.metrics.migrationHintQueued.Add(1)
 	}
+
+	return true
 }
 
 // approxHintSize estimates the size of a hinted item for global caps.
@@ -4618,7 +4686,10 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 			continue
 		}
 
-		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
+		repErr := dm.replicateSetWithSpan(ctx, transport, oid, item)
+		if repErr != nil && !isSuperseded(repErr) {
+			dm.queueHint(string(oid), item, hintSourceReplication)
+		}
 	}
 
 	return err
-- 
2.43.0


From 24e62ed597cb53f082fd2dde83642d1d03326ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 56/84] fix: adopting a membership claim does not read the
 stored node unlocked

Merge told observers the state of the node it had just stored after
releasing the lock, racing with a concurrent Mark.
---
 internal/cluster/membership.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 44b9850..4f7ff14 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -103,9 +103,11 @@ func (m *Membership) Merge(n *Node) bool {
 
 	version := m.ver.Next()
 	observers := m.observers
+	id := adopted.ID
+	state := adopted.State
 	m.mu.Unlock()
 
-	notify(observers, adopted.ID, adopted.State, version)
+	notify(observers, id, state, version)
 
 	return true
 }
-- 
2.43.0


From f16d911cd33c3a2cc6e0a967febdae766daec563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 57/84] fix: the last members event carries the latest
 membership

Two changes arriving together could publish their snapshots in the
opposite order, leaving event stream subscribers with a membership that
was already out of date until the next change.
---
 pkg/backend/dist_memory.go        | 3 +++
 pkg/backend/dist_memory_events.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 4e79549..566aa4c 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -71,6 +71,9 @@ type DistMemory struct {
 	// initMembershipIfNeeded even when the bus has no subscribers
 	// yet (publish to a no-subscriber bus is a no-op).
 	eventBus *eventbus.Bus
+	// eventMembersMu makes taking and publishing a members snapshot one step,
+	// so that the last event published carries the latest membership.
+	eventMembersMu sync.Mutex
 	// transport holds the active DistTransport behind an atomic.Pointer so that
 	// callers (including the hint-replay goroutine) can read it without racing
 	// against SetTransport / WithDistTransport / lazy HTTP server bring-up.
diff --git a/pkg/backend/dist_memory_events.go b/pkg/backend/dist_memory_events.go
index cfa4c5d..c98cb47 100644
--- a/pkg/backend/dist_memory_events.go
+++ b/pkg/backend/dist_memory_events.go
@@ -53,6 +53,9 @@ func (dm *DistMemory) installEventBusObserver() {
 	}
 
 	dm.membership.OnStateChange(func(_ cluster.NodeID, _ cluster.NodeState, _ uint64) {
+		dm.eventMembersMu.Lock()
+		defer dm.eventMembersMu.Unlock()
+
 		dm.eventBus.Publish(eventbus.Event{
 			Type:    "members",
 			Payload: dm.membersSnapshot(),
-- 
2.43.0


From 46e3084dd6bec219f03062f5532c6f68e0047051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 58/84] fix: a write refused by a node that does not own the
 key is not acknowledged

A forwarded or replicated write arriving at a node whose ring view says it
is no owner was dropped and answered as applied: the client's write was
acknowledged although nobody held it, refused replica writes counted toward
the quorum, and a migrating key's last copy was released.
---
 pkg/backend/dist_http_server.go    |  7 +++++--
 pkg/backend/dist_http_transport.go |  8 ++++++--
 pkg/backend/dist_memory.go         | 21 +++++++++++++++++----
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index c5ef5a1..f7a7e31 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -394,8 +394,9 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 }
 
 // writeOutcome answers a peer's set or remove. A superseded one is no failure,
-// but the peer learns which version won; a quorum failure is reported as such,
-// so that the forwarding node can tell it from a failure to reach this one.
+// but the peer learns which version won; a quorum failure and a refusal by a node
+// that is no owner of the key are reported as such, so that the forwarding node
+// can tell them from a failure to reach this one.
 func writeOutcome(fctx fiber.Ctx, err error) error {
 	var superseded *supersededError
 
@@ -406,6 +407,8 @@ func writeOutcome(fctx fiber.Ctx, err error) error {
 		return fctx.JSON(httpSetResponse{Superseded: superseded.version})
 	case errors.Is(err, sentinel.ErrQuorumFailed):
 		return fctx.Status(fiber.StatusServiceUnavailable).JSON(httpSetResponse{Error: sentinel.ErrQuorumFailed.Error()})
+	case errors.Is(err, sentinel.ErrNotOwner):
+		return fctx.Status(fiber.StatusConflict).JSON(httpSetResponse{Error: sentinel.ErrNotOwner.Error()})
 	default:
 		return fctx.Status(fiber.StatusInternalServerError).JSON(httpSetResponse{Error: err.Error()})
 	}
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 348902f..8c08925 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -216,8 +216,12 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		}
 
 		var failed httpSetResponse
-		if json.Unmarshal(errBody, &failed) == nil && failed.Error == sentinel.ErrQuorumFailed.Error() {
-			return sentinel.ErrQuorumFailed
+		if json.Unmarshal(errBody, &failed) == nil {
+			for _, verdict := range []error{sentinel.ErrQuorumFailed, sentinel.ErrNotOwner} {
+				if failed.Error == verdict.Error() {
+					return verdict
+				}
+			}
 		}
 
 		return ewrap.Newf("forward set status %d body %s", resp.StatusCode, string(errBody))
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 566aa4c..eda617f 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2420,7 +2420,7 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
 	secured := migrationErr == nil || isSuperseded(migrationErr)
-	if !secured {
+	if !secured && !errors.Is(migrationErr, sentinel.ErrNotOwner) { // it would refuse the hint, too
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
 			slog.String("key", item.Key),
@@ -2998,6 +2998,10 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 			continue
 		}
 
+		if errors.Is(err, sentinel.ErrNotOwner) { // it has another view of the ring; a hint would meet the same answer
+			continue
+		}
+
 		// Queue a hint for ANY transport error — pre-Phase-B this was
 		// gated on ErrBackendNotFound only, so transient HTTP failures
 		// (timeout, 5xx, connection reset) silently dropped replicas.
@@ -3274,7 +3278,12 @@ func (dm *DistMemory) processHint(ctx context.Context, nodeID string, entry hint
 	}
 
 	err := transport.ForwardSet(ctx, nodeID, entry.item, false)
-	if err == nil || isSuperseded(err) { // delivered, or no longer needed
+
+	// A replica write the peer refuses as no owner of the key is not owed to it
+	// any more; a migrating copy, which may be the last one, is kept for it.
+	disowned := errors.Is(err, sentinel.ErrNotOwner) && entry.source != hintSourceMigration
+
+	if err == nil || isSuperseded(err) || disowned { // delivered, or no longer needed
 		dm.metrics.hintedReplayed.Add(1)
 
 		if entry.source == hintSourceMigration {
@@ -4623,7 +4632,11 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return nil
+		if !replicate && item.Version == 0 {
+			return nil
+		}
+
+		return sentinel.ErrNotOwner
 	}
 
 	if replicate && item.Version == 0 && dm.ring != nil {
@@ -4690,7 +4703,7 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 		}
 
 		repErr := dm.replicateSetWithSpan(ctx, transport, oid, item)
-		if repErr != nil && !isSuperseded(repErr) {
+		if repErr != nil && !isSuperseded(repErr) && !errors.Is(repErr, sentinel.ErrNotOwner) {
 			dm.queueHint(string(oid), item, hintSourceReplication)
 		}
 	}
-- 
2.43.0


From b4baf2a74ab504cf10f26517428d2ea7ac9ba99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 59/84] fix: a node does not serve its own stale copy of a key
 it does not own

---
 pkg/backend/dist_memory.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index eda617f..12dea07 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2729,10 +2729,15 @@ func (*DistMemory) requiredAcks(total int, lvl ConsistencyLevel) int {
 func (dm *DistMemory) getOne(ctx context.Context, key string, owners []cluster.NodeID) (*cache.Item, bool) {
 	var deleted *cache.Item // newest tombstone met so far: leftover copies it covers do not count
 
+	answered := false // has any owner, even with a miss
+
 	for idx, oid := range owners { // iterate owners until hit
 		it, ok := dm.tryLocalGet(key, idx, oid)
 		if it == nil {
-			it, ok = dm.tryRemoteGet(ctx, key, idx, oid)
+			var reached bool
+
+			it, ok, reached = dm.tryRemoteGet(ctx, key, idx, oid)
+			answered = answered || reached
 		}
 
 		switch {
@@ -2747,6 +2752,10 @@ func (dm *DistMemory) getOne(ctx context.Context, key string, owners []cluster.N
 		}
 	}
 
+	if deleted == nil && !answered { // with every owner away, any copy is better than none
+		return dm.shardFor(key).items.GetCopy(key)
+	}
+
 	return nil, false
 }
 
@@ -2766,11 +2775,12 @@ func (dm *DistMemory) tryLocalGet(key string, idx int, oid cluster.NodeID) (*cac
 }
 
 // tryRemoteGet attempts remote fetch for given owner; includes promotion + repair.
-// A non-nil item without ok is the owner's tombstone, as in ForwardGet.
-func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
+// A non-nil item without ok is the owner's tombstone, as in ForwardGet; the
+// last result tells whether the owner answered.
+func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool, bool) {
 	transport := dm.loadTransport()
 	if oid == dm.localNode.ID || transport == nil { // skip local path or missing transport
-		return nil, false
+		return nil, false, false
 	}
 
 	dm.metrics.forwardGet.Add(1)
@@ -2781,11 +2791,11 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 			dm.metrics.readPrimaryPromote.Add(1)
 		}
 
-		return nil, false
+		return nil, false, false
 	}
 
 	if !ok { // miss (err leaves it nil)
-		return it, false
+		return it, false, err == nil
 	}
 
 	if idx > 0 { // promotion occurred
@@ -2802,7 +2812,7 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 		}
 	}
 
-	return it, true
+	return it, true, true
 }
 
 // getWithConsistency performs quorum/all reads.
@@ -3933,7 +3943,10 @@ func (dm *DistMemory) ownsKeyInternal(key string) bool {
 // wrapper to a literal `defer span.End()`, avoids named returns, and
 // still lets the wrapper set `cache.hit` after the impl returns.
 func (dm *DistMemory) getImpl(ctx context.Context, key string) (*cache.Item, bool) {
-	if dm.readConsistency == ConsistencyOne { // fast local path
+	// Fast local path. Writes do not reach the copies a node holds of keys it
+	// does not own (pulled by anti-entropy, or awaiting removal): those are stale
+	// from the next write on, so only an owner answers from its own shard.
+	if dm.readConsistency == ConsistencyOne && dm.ownsKeyInternal(key) {
 		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
 			return it, true
 		}
-- 
2.43.0


From e573bd25db1ad46110231f84f97464bc02008137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:00 +0000
Subject: [PATCH 60/84] fix: an owner that comes back is a new replica to
 rebalancing

---
 pkg/backend/dist_memory.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 12dea07..e3acadc 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2205,6 +2205,8 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		it := &snapshot[i]
 
 		owners := dm.ring.Lookup(it.Key)
+		dm.trimOwnerBaseline(sh, it.Key, owners)
+
 		if len(owners) == 0 || owners[0] != dm.localNode.ID {
 			dm.maybeRecordRemoval(sh, it.Key)
 
@@ -2258,6 +2260,19 @@ func (*DistMemory) ensureOwnerBaseline(sh *distShard, key string, owners []clust
 	return false
 }
 
+// trimOwnerBaseline drops nodes that no longer own key from its baseline: they
+// shed their copies, and need a new one should they become owners again.
+func (*DistMemory) trimOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
+	gone := func(id cluster.NodeID) bool { return !slices.Contains(owners, id) }
+
+	sh.originalOwnersMu.Lock()
+	defer sh.originalOwnersMu.Unlock()
+
+	if base, ok := sh.originalOwners[key]; ok && slices.ContainsFunc(base, gone) {
+		sh.originalOwners[key] = slices.DeleteFunc(slices.Clone(base), gone)
+	}
+}
+
 func (*DistMemory) computeNewReplicas(sh *distShard, key string, owners []cluster.NodeID) []cluster.NodeID {
 	sh.originalOwnersMu.RLock()
 
-- 
2.43.0


From 1b41249c8d1e606333cfbd5a37c7f2bb32244e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:01 +0000
Subject: [PATCH 61/84] fix: a peer is dropped only after a failed probe

---
 internal/cluster/membership.go | 14 +++++++--
 pkg/backend/dist_memory.go     | 57 +++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 4f7ff14..9bb4727 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -135,11 +135,19 @@ func (m *Membership) List() []*Node {
 func (m *Membership) Ring() *Ring { return m.ring }
 
 // Remove deletes a node from membership and rebuilds the ring. Returns true if removed.
-func (m *Membership) Remove(id NodeID) bool {
+func (m *Membership) Remove(id NodeID) bool { return m.remove(id, nil) }
+
+// RemoveUnseen removes a node like Remove, but only if nothing refreshed it since
+// lastSeen, the LastSeen the caller's decision to remove it is based on.
+func (m *Membership) RemoveUnseen(id NodeID, lastSeen time.Time) bool {
+	return m.remove(id, &lastSeen)
+}
+
+func (m *Membership) remove(id NodeID, lastSeen *time.Time) bool {
 	m.mu.Lock()
 
-	_, ok := m.nodes[id]
-	if !ok {
+	n, ok := m.nodes[id]
+	if !ok || (lastSeen != nil && n.LastSeen.After(*lastSeen)) {
 		m.mu.Unlock()
 
 		return false
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e3acadc..53ca9f1 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -5053,26 +5053,12 @@ func (dm *DistMemory) runHeartbeatTick(ctx context.Context) { //nolint:revive
 	}
 }
 
-// evaluateLiveness applies timeout-based transitions then performs a probe.
+// evaluateLiveness marks an overdue peer suspect and probes it. Only a probe that
+// fails can get a peer pruned: a long gap since the last one may be ours (a slow
+// tick, sampling, a paused process) rather than the peer's.
 func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node *cluster.Node) {
 	elapsed := now.Sub(node.LastSeen)
 
-	if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter { // prune dead
-		if dm.membership.Remove(node.ID) {
-			dm.metrics.nodesRemoved.Add(1)
-			dm.metrics.nodesDead.Add(1)
-
-			dm.logger.Warn(
-				"peer pruned (dead)",
-				slog.String("peer_id", string(node.ID)),
-				slog.String("peer_addr", node.Address),
-				slog.Duration("elapsed_since_seen", elapsed),
-			)
-		}
-
-		return
-	}
-
 	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter && node.State == cluster.NodeAlive { // suspect
 		dm.membership.Mark(node.ID, cluster.NodeSuspect)
 		dm.metrics.nodesSuspect.Add(1)
@@ -5095,8 +5081,15 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 	cancel()
 
 	if err != nil {
+		if ctx.Err() != nil { // this node is stopping, which says nothing about the peer
+			return
+		}
+
 		dm.metrics.heartbeatFailure.Add(1)
-		dm.handleProbeFailure(ctx, transport, node, err)
+
+		if !dm.handleProbeFailure(ctx, transport, node, err) && dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter {
+			dm.pruneDead(node, elapsed)
+		}
 
 		return
 	}
@@ -5111,8 +5104,8 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 // relay confirms the target is reachable, the direct failure is
 // dismissed as caller-side. Otherwise the target is escalated to
 // suspect. Extracted from evaluateLiveness to keep that function under
-// the function-length lint cap.
-func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTransport, node *cluster.Node, directErr error) {
+// the function-length lint cap. Returns true if a relay reached the target.
+func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTransport, node *cluster.Node, directErr error) bool {
 	if dm.indirectProbeK > 0 && dm.indirectProbeReachable(ctx, transport, node.ID) {
 		dm.metrics.indirectProbeRefuted.Add(1)
 
@@ -5125,11 +5118,11 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 		// Refresh LastSeen — target is alive per the indirect path.
 		dm.membership.Mark(node.ID, cluster.NodeAlive)
 
-		return
+		return true
 	}
 
 	if node.State != cluster.NodeAlive {
-		return
+		return false
 	}
 
 	dm.membership.Mark(node.ID, cluster.NodeSuspect)
@@ -5140,6 +5133,26 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 		slog.String("peer_id", string(node.ID)),
 		slog.Any("err", directErr),
 	)
+
+	return false
+}
+
+// pruneDead drops a peer that has not been seen for the dead window, unless
+// somebody heard of it since node was read.
+func (dm *DistMemory) pruneDead(node *cluster.Node, elapsed time.Duration) {
+	if !dm.membership.RemoveUnseen(node.ID, node.LastSeen) {
+		return
+	}
+
+	dm.metrics.nodesRemoved.Add(1)
+	dm.metrics.nodesDead.Add(1)
+
+	dm.logger.Warn(
+		"peer pruned (dead)",
+		slog.String("peer_id", string(node.ID)),
+		slog.String("peer_addr", node.Address),
+		slog.Duration("elapsed_since_seen", elapsed),
+	)
 }
 
 // indirectProbeReachable runs up to indirectProbeK indirect probes
-- 
2.43.0


From a1dd1ac45dc42aa3e7693f70cf0a0e139083a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:01 +0000
Subject: [PATCH 62/84] fix: a suspicion is counted once

---
 pkg/backend/dist_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 53ca9f1..1b6ff6d 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -5063,6 +5063,8 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 		dm.membership.Mark(node.ID, cluster.NodeSuspect)
 		dm.metrics.nodesSuspect.Add(1)
 
+		node.State = cluster.NodeSuspect // a failing probe below is no second suspicion
+
 		dm.logger.Info(
 			"peer marked suspect (timeout)",
 			slog.String("peer_id", string(node.ID)),
-- 
2.43.0


From 0c6756d6bbd1efa8d624c2523f6191508cb40de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 63/84] fix: gossip does not bring back a peer dropped as dead

---
 internal/cluster/membership.go | 48 +++++++++++++++++++++++++++++-----
 pkg/backend/dist_memory.go     |  7 +++--
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 9bb4727..77c4b03 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -28,6 +28,14 @@ type Membership struct {
 	ring      *Ring
 	ver       MembershipVersion
 	observers []StateChangeObserver
+	pruned    map[NodeID]prunedNode
+}
+
+// prunedNode is what is remembered of a node dropped as dead: peers that have not
+// dropped it yet still gossip about it, which must not bring it back.
+type prunedNode struct {
+	incarnation uint64
+	until       time.Time
 }
 
 // NewMembership creates a new membership container bound to a ring.
@@ -88,7 +96,7 @@ func (m *Membership) Merge(n *Node) bool {
 	m.mu.Lock()
 
 	cur, ok := m.nodes[n.ID]
-	if ok && n.Incarnation <= cur.Incarnation {
+	if (ok && n.Incarnation <= cur.Incarnation) || (!ok && m.prunedLocked(n)) {
 		m.mu.Unlock()
 
 		return false
@@ -135,15 +143,33 @@ func (m *Membership) List() []*Node {
 func (m *Membership) Ring() *Ring { return m.ring }
 
 // Remove deletes a node from membership and rebuilds the ring. Returns true if removed.
-func (m *Membership) Remove(id NodeID) bool { return m.remove(id, nil) }
+func (m *Membership) Remove(id NodeID) bool { return m.remove(id, nil, 0) }
 
-// RemoveUnseen removes a node like Remove, but only if nothing refreshed it since
-// lastSeen, the LastSeen the caller's decision to remove it is based on.
-func (m *Membership) RemoveUnseen(id NodeID, lastSeen time.Time) bool {
-	return m.remove(id, &lastSeen)
+// Prune removes a dead node like Remove, but only if nothing refreshed it since
+// lastSeen, the LastSeen the caller's decision to remove it is based on. For the
+// hold duration Merge adopts it again only from a claim newer than the one dropped.
+func (m *Membership) Prune(id NodeID, lastSeen time.Time, hold time.Duration) bool {
+	return m.remove(id, &lastSeen, hold)
 }
 
-func (m *Membership) remove(id NodeID, lastSeen *time.Time) bool {
+// prunedLocked reports whether n is an old claim about a node dropped as dead.
+// The caller holds m.mu.
+func (m *Membership) prunedLocked(n *Node) bool {
+	p, ok := m.pruned[n.ID]
+	if !ok {
+		return false
+	}
+
+	if n.Incarnation <= p.incarnation && time.Now().Before(p.until) {
+		return true
+	}
+
+	delete(m.pruned, n.ID)
+
+	return false
+}
+
+func (m *Membership) remove(id NodeID, lastSeen *time.Time, hold time.Duration) bool {
 	m.mu.Lock()
 
 	n, ok := m.nodes[id]
@@ -155,6 +181,14 @@ func (m *Membership) remove(id NodeID, lastSeen *time.Time) bool {
 
 	delete(m.nodes, id)
 
+	if hold > 0 {
+		if m.pruned == nil {
+			m.pruned = map[NodeID]prunedNode{}
+		}
+
+		m.pruned[id] = prunedNode{incarnation: n.Incarnation, until: time.Now().Add(hold)}
+	}
+
 	m.rebuildRingLocked() // under the lock, see Upsert
 
 	version := m.ver.Next()
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 1b6ff6d..c6d805c 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -5140,9 +5140,12 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 }
 
 // pruneDead drops a peer that has not been seen for the dead window, unless
-// somebody heard of it since node was read.
+// somebody heard of it since node was read. The other nodes drop it within about
+// a window; until then their gossip about it is no news.
 func (dm *DistMemory) pruneDead(node *cluster.Node, elapsed time.Duration) {
-	if !dm.membership.RemoveUnseen(node.ID, node.LastSeen) {
+	const holdWindows = 2
+
+	if !dm.membership.Prune(node.ID, node.LastSeen, holdWindows*dm.hbDeadAfter) {
 		return
 	}
 
-- 
2.43.0


From 106d541359fe76e46268b22f9c24ef4db2def9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 64/84] fix: what peers send is decoded by encoding/json

goccy/go-json reads past the end of some malformed documents (a struct key
ending in a backslash): the race detector's pointer checks abort the node, and
without them it decodes whatever memory follows.
---
 pkg/backend/dist_http_server.go    |  2 +-
 pkg/backend/dist_http_transport.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index f7a7e31..1fc4ca0 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/subtle"
 	"crypto/tls"
+	"encoding/json"
 	"errors"
 	"log/slog"
 	"net"
@@ -13,7 +14,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/goccy/go-json"
 	fiber "github.com/gofiber/fiber/v3"
 	"github.com/hyp3rd/ewrap"
 
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 8c08925..27d6fa0 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"context"
 	"crypto/tls"
+	"encoding/json"
 	"io"
 	"net/http"
 	"net/url"
@@ -12,7 +13,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/goccy/go-json"
 	"github.com/hyp3rd/ewrap"
 
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -129,10 +129,10 @@ func drainBody(body io.ReadCloser) {
 
 // readAndUnmarshal reads the entire bounded body into memory, then
 // json.Unmarshals it into dst. We pre-read so that an *http.MaxBytesError
-// from the limited body surfaces cleanly to the caller — the goccy/go-json
-// streaming decoder swallows it as io.EOF / "unexpected end of JSON input",
-// which would mask the real "peer sent too much" failure mode behind a
-// generic parse error. Read cost is bounded by respBodyLimit.
+// from the limited body surfaces cleanly to the caller rather than as a
+// generic parse error. Read cost is bounded by respBodyLimit. What peers send
+// is decoded by encoding/json: goccy/go-json reads beyond the end of some
+// malformed documents.
 func readAndUnmarshal(body io.Reader, dst any) error {
 	buf, err := io.ReadAll(body)
 	if err != nil {
-- 
2.43.0


From ef2e8863b94ff6990a1773c0a338b2694cf55803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 65/84] fix: keys that are not UTF-8 reach peers unchanged

JSON strings replaced their invalid bytes, so that a peer stored, returned and
listed another key.
---
 pkg/backend/dist_http_server.go    | 26 ++++++++++++++++++++++++--
 pkg/backend/dist_http_transport.go |  9 +++++++++
 pkg/backend/dist_http_types.go     | 12 ++++++++++++
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 1fc4ca0..55e7074 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"slices"
 	"strconv"
 	"strings"
 	"sync/atomic"
@@ -378,6 +379,10 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: unmarshalErr.Error()})
 	}
 
+	if len(req.RawKey) > 0 {
+		req.Key = string(req.RawKey)
+	}
+
 	it := &cache.Item{ // LastUpdated set to now for replicated writes
 		Key:         req.Key,
 		Value:       req.Value,
@@ -667,11 +672,28 @@ func handleKeys(fctx fiber.Ctx, dm *DistMemory) error {
 		// end-of-iteration to the client.
 	}
 
-	return fctx.JSON(fiber.Map{
-		"keys":        keys,
+	page := fiber.Map{
 		"next_cursor": nextCursor,
 		"truncated":   truncated,
+	}
+
+	// Keys that JSON strings would alter travel as bytes.
+	var raw [][]byte
+
+	page["keys"] = slices.DeleteFunc(keys, func(key string) bool {
+		bytes := rawKey(key)
+		if bytes != nil {
+			raw = append(raw, bytes)
+		}
+
+		return bytes != nil
 	})
+
+	if raw != nil {
+		page["raw_keys"] = raw
+	}
+
+	return fctx.JSON(page)
 }
 
 // collectShardKeys reads up to `limit` keys from shard that match
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 27d6fa0..cc5aa67 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -167,6 +167,7 @@ func expirationMillis(d time.Duration) int64 {
 func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error {
 	reqBody := httpSetRequest{
 		Key:        item.Key,
+		RawKey:     rawKey(item.Key),
 		Value:      item.Value,
 		Expiration: expirationMillis(item.Expiration),
 		Version:    item.Version,
@@ -278,6 +279,10 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 		return nil, false, derr
 	}
 
+	if item != nil {
+		item.Key = key // as asked for: JSON alters keys that are not UTF-8
+	}
+
 	return item, found, nil
 }
 
@@ -540,6 +545,9 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		}
 
 		all = append(all, page.Keys...)
+		for _, raw := range page.RawKeys {
+			all = append(all, string(raw))
+		}
 
 		if page.NextCursor == "" {
 			return all, nil
@@ -609,6 +617,7 @@ func (t *DistHTTPTransport) listKeysPage(ctx context.Context, nodeID, cursor, pa
 // truth for the wire format.
 type keysPageResp struct {
 	Keys       []string `json:"keys"`
+	RawKeys    [][]byte `json:"raw_keys"` // the keys that are not UTF-8
 	NextCursor string   `json:"next_cursor"`
 	Truncated  bool     `json:"truncated"`
 }
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 500c31a..7f5421d 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"time"
+	"unicode/utf8"
 
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
@@ -9,6 +10,7 @@ import (
 // Shared HTTP request/response DTOs for distributed transport/server.
 type httpSetRequest struct { // shared with server & transport
 	Key        string `json:"key"`
+	RawKey     []byte `json:"raw_key,omitempty"` // see rawKey; replaces Key if set
 	Value      any    `json:"value"`
 	Expiration int64  `json:"expiration_ms"`
 	Version    uint64 `json:"version"`
@@ -30,6 +32,16 @@ type httpGetResponse struct {
 	AgeNs int64       `json:"age_ns,omitempty"` // time since the last access (see ageNs)
 }
 
+// rawKey returns the bytes of a key that a JSON string cannot carry unchanged, nil
+// for the others.
+func rawKey(key string) []byte {
+	if utf8.ValidString(key) {
+		return nil
+	}
+
+	return []byte(key)
+}
+
 // ageNs returns how long ago item was last accessed, which its lifetime counts
 // from. An age travels between nodes rather than a time of day: it does not
 // depend on their clocks agreeing.
-- 
2.43.0


From 36298373532dc1c1bfc08ff917dc9b7934974847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:58 +0000
Subject: [PATCH 66/84] fix: large integers reach peers unrounded

Decoding a replicated value into float64 changed integers beyond 2^53.
---
 pkg/backend/dist_http_types.go | 50 ++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 7f5421d..3716cf2 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,6 +1,10 @@
 package backend
 
 import (
+	"bytes"
+	"encoding/json"
+	"strconv"
+	"strings"
 	"time"
 	"unicode/utf8"
 
@@ -19,6 +23,52 @@ type httpSetRequest struct { // shared with server & transport
 	AgeNs      int64  `json:"age_ns,omitempty"` // time since the last access (see ageNs)
 }
 
+// UnmarshalJSON keeps the digits of integers that a float64 would round.
+func (r *httpSetRequest) UnmarshalJSON(data []byte) error {
+	type plain httpSetRequest // without this method
+
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+
+	err := decoder.Decode((*plain)(r))
+	if err != nil {
+		return err //nolint:wrapcheck // json adds what context there is
+	}
+
+	r.Value = plainNumbers(r.Value)
+
+	return nil
+}
+
+// plainNumbers turns the numbers in a decoded value into float64, as decoding
+// without UseNumber does, unless that would change them.
+func plainNumbers(value any) any {
+	switch v := value.(type) {
+	case json.Number:
+		f, err := v.Float64()
+		if err != nil {
+			return v
+		}
+
+		integer := !strings.ContainsAny(v.String(), ".eE")
+		if integer && strconv.FormatFloat(f, 'f', -1, 64) != v.String() {
+			return v
+		}
+
+		return f
+	case []any:
+		for i := range v {
+			v[i] = plainNumbers(v[i])
+		}
+	case map[string]any:
+		for k := range v {
+			v[k] = plainNumbers(v[k])
+		}
+	}
+
+	return value
+}
+
 // httpSetResponse answers a set; removals answer with the same shape.
 type httpSetResponse struct {
 	Error      string `json:"error,omitempty"`
-- 
2.43.0


From 500bebd601f7fcc1cb82a24d6a31ae98c27d1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 67/84] fix: the longest lifetimes do not turn negative on the
 way to a peer

---
 pkg/backend/dist_http_transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index cc5aa67..801d353 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -7,6 +7,7 @@ import (
 	"crypto/tls"
 	"encoding/json"
 	"io"
+	"math"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -156,7 +157,7 @@ const (
 // rounding up: 0 would mean that the item never expires.
 func expirationMillis(d time.Duration) int64 {
 	ms := d.Milliseconds()
-	if d > 0 && d%time.Millisecond != 0 {
+	if d > 0 && d%time.Millisecond != 0 && ms < math.MaxInt64/int64(time.Millisecond) { // still a Duration
 		ms++
 	}
 
-- 
2.43.0


From 3dc4791aadab7f0479e524a43fb59ad120159f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:02 +0000
Subject: [PATCH 68/84] fix: long keys can be fetched and removed from peers

Reads and removals carry the key in the URL, which fiber's default header limit
of 4096 bytes cut at a third of that for non-ASCII keys; sets had no such limit.
---
 pkg/backend/dist_http_server.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 55e7074..d786585 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -185,6 +185,10 @@ const (
 	// HTTP client will accept. Mirrors BodyLimit so a peer cannot OOM
 	// the requester via an oversized response.
 	defaultDistHTTPResponseLimit int64 = 16 * 1024 * 1024
+	// distHTTPHeaderLimit caps the request line and headers. Keys travel in
+	// the query string of reads and removals, up to three bytes for each of
+	// theirs; fiber's default of 4096 refused those of sets it had accepted.
+	distHTTPHeaderLimit = 64 * 1024
 	// defaultDistHTTPIdleTimeout is the keep-alive idle timeout. Without
 	// it idle connections accumulate; fiber's default is unbounded.
 	defaultDistHTTPIdleTimeout = 60 * time.Second
@@ -287,11 +291,12 @@ func newDistHTTPServer(addr string, limits DistHTTPLimits, auth DistHTTPAuth) *d
 	limits = limits.withDefaults()
 
 	app := fiber.New(fiber.Config{
-		ReadTimeout:  limits.ReadTimeout,
-		WriteTimeout: limits.WriteTimeout,
-		IdleTimeout:  limits.IdleTimeout,
-		BodyLimit:    limits.BodyLimit,
-		Concurrency:  limits.Concurrency,
+		ReadTimeout:    limits.ReadTimeout,
+		WriteTimeout:   limits.WriteTimeout,
+		IdleTimeout:    limits.IdleTimeout,
+		BodyLimit:      limits.BodyLimit,
+		Concurrency:    limits.Concurrency,
+		ReadBufferSize: distHTTPHeaderLimit,
 	})
 
 	return &distHTTPServer{app: app, addr: addr, auth: auth, tlsConfig: limits.TLSConfig}
-- 
2.43.0


From 0daa7ca2c1265296071a9a695609fc5496494adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:33 +0000
Subject: [PATCH 69/84] fix: a capped key listing is the same for every caller

It kept whichever keys arrived first, so pages of one listing overlapped and
missed keys, and reported truncation when only duplicates followed.
---
 pkg/backend/dist_keys.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 1653c25..29fcd24 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"context"
 	"log/slog"
+	"maps"
 	"path"
 	"slices"
 	"strings"
@@ -100,21 +101,26 @@ type listKeysAccumulator struct {
 	truncated bool
 }
 
-// tryAdd merges `keys` into the dedup set under the lock. Stops at
-// maxKeys and flips truncated. Idempotent — a key already in the
-// set doesn't change accounting.
+// tryAdd merges `keys` into the dedup set under the lock. Idempotent — a key
+// already in the set doesn't change accounting. Keeps the first maxKeys in sort
+// order and flips truncated if it drops any, so the result does not depend on
+// which peer answered first.
 func (a *listKeysAccumulator) tryAdd(keys []string) {
 	a.mu.Lock()
 	defer a.mu.Unlock()
 
 	for _, k := range keys {
-		if len(a.dedup) >= a.maxKeys {
-			a.truncated = true
+		a.dedup[k] = struct{}{}
+	}
 
-			return
-		}
+	if len(a.dedup) <= a.maxKeys {
+		return
+	}
 
-		a.dedup[k] = struct{}{}
+	a.truncated = true
+
+	for _, k := range slices.Sorted(maps.Keys(a.dedup))[a.maxKeys:] {
+		delete(a.dedup, k)
 	}
 }
 
-- 
2.43.0


From 2d2ef9c654c1bfd0c071eadb61ecb48977cc16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 70/84] fix: a listing's cap is no allocation size

A caller asking for as many keys as there are made it allocate for the cap.
---
 pkg/backend/dist_keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 29fcd24..74ee470 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -172,7 +172,7 @@ func (dm *DistMemory) ListKeys(ctx context.Context, pattern string, maxResults i
 	}
 
 	acc := &listKeysAccumulator{
-		dedup:   make(map[string]struct{}, maxResults),
+		dedup:   make(map[string]struct{}, min(maxResults, defaultListKeysMax)),
 		maxKeys: maxResults,
 	}
 
-- 
2.43.0


From 0f53a45d5e29090ddc32deea9173ad9df723b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:09 +0000
Subject: [PATCH 71/84] fix: a listing reports the suspect peers it did not ask

---
 pkg/backend/dist_keys.go | 45 ++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 74ee470..8b42f6b 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -82,7 +82,8 @@ func buildKeyMatcher(pattern string) (func(string) bool, error) {
 // results to the operator. `Keys` is sorted and deduplicated across
 // owners. `Truncated` is true when the merged set hit `max` and we
 // stopped pulling further pages. `PartialNodes` lists peers whose
-// fan-out call failed — their keys may be missing from `Keys`.
+// fan-out call failed or that were not asked because they are suspect — their
+// keys may be missing from `Keys`.
 type ListKeysResult struct {
 	Keys         []string
 	Truncated    bool
@@ -176,7 +177,11 @@ func (dm *DistMemory) ListKeys(ctx context.Context, pattern string, maxResults i
 		maxKeys: maxResults,
 	}
 
-	peers := dm.alivePeerIDs()
+	peers, skipped := dm.listingPeers()
+	for _, peer := range skipped {
+		acc.markPartial(peer)
+	}
+
 	transport := dm.loadTransport()
 
 	g, gctx := errgroup.WithContext(ctx)
@@ -237,32 +242,32 @@ func (dm *DistMemory) collectPeerKeys(
 	acc.tryAdd(keys)
 }
 
-// alivePeerIDs returns the membership snapshot's alive nodes
-// (including self). Suspect/Dead nodes are excluded — their key
-// sets aren't fresh enough to be worth the per-request HTTP cost.
+// listingPeers returns the nodes a listing asks: this one and the alive
+// members. Suspect/Dead members are skipped — their key sets aren't fresh
+// enough to be worth the per-request HTTP cost — and returned apart, since
+// keys that only they hold are missing from the listing.
 // Falls back to a self-only list when membership isn't wired up
 // (single-process / test scenarios).
-func (dm *DistMemory) alivePeerIDs() []cluster.NodeID {
-	if dm.membership == nil {
-		if dm.localNode != nil {
-			return []cluster.NodeID{dm.localNode.ID}
-		}
-
-		return nil
+func (dm *DistMemory) listingPeers() (asked, skipped []cluster.NodeID) {
+	if dm.localNode != nil {
+		asked = append(asked, dm.localNode.ID)
 	}
 
-	nodes := dm.membership.List()
-	out := make([]cluster.NodeID, 0, len(nodes))
+	if dm.membership == nil {
+		return asked, nil
+	}
 
-	for _, n := range nodes {
-		if n == nil || n.State != cluster.NodeAlive {
-			continue
+	for _, n := range dm.membership.List() {
+		switch {
+		case n == nil || dm.localNode != nil && n.ID == dm.localNode.ID:
+		case n.State == cluster.NodeAlive:
+			asked = append(asked, n.ID)
+		default:
+			skipped = append(skipped, n.ID)
 		}
-
-		out = append(out, n.ID)
 	}
 
-	return out
+	return asked, skipped
 }
 
 // localMatchingKeys walks the local shards once, returning keys that
-- 
2.43.0


From 862f07fa20387523d09a3dae68b0874af024485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:12 +0000
Subject: [PATCH 72/84] fix: listing a peer's keys goes through all its shards

It stopped after 1024 pages, one per shard, or at a cursor that did not move, and
returned what it had as if it were all.
---
 pkg/backend/dist_http_transport.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 801d353..9fba2a1 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -535,9 +535,10 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 	var (
 		all    []string
 		cursor string
+		shard  int
 	)
 
-	const safetyLimit = 1024 // upper bound to prevent infinite loop on a buggy server
+	const safetyLimit = 1 << 20 // more shards than any peer has: a buggy server must not keep us forever
 
 	for range safetyLimit {
 		page, err := t.listKeysPage(ctx, nodeID, cursor, pattern)
@@ -554,19 +555,16 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 			return all, nil
 		}
 
-		// Truncated pages return next_cursor == current cursor.
-		// Without bumping limit, we'd loop forever — but ListKeys
-		// never sets a limit (it asks for the full shard each time),
-		// so server-side truncation cannot occur on this path.
-		// Defensive: break if cursor doesn't advance.
-		if page.NextCursor == cursor {
-			break
+		// The cursor is the peer's next shard.
+		next, convErr := strconv.Atoi(page.NextCursor)
+		if convErr != nil || next <= shard {
+			return nil, ewrap.Newf("list keys: cursor %q after %d", page.NextCursor, shard)
 		}
 
-		cursor = page.NextCursor
+		shard, cursor = next, page.NextCursor
 	}
 
-	return all, nil
+	return nil, ewrap.Newf("list keys: no end after %d pages", safetyLimit)
 }
 
 // listKeysPage is the per-page fetch for ListKeys; broken out so the
-- 
2.43.0


From dea06c227c73f899be5f2971c4c8f1b5f0df8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:34 +0000
Subject: [PATCH 73/84] fix: writes a primary replicates count as replica
 fan-out

---
 pkg/backend/dist_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index c6d805c..32a71b3 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3002,6 +3002,8 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 			continue
 		}
 
+		dm.metrics.replicaFanoutSet.Add(1)
+
 		// Reuse the per-peer child-span helper so the primary-path
 		// fan-out emits the same `dist.replicate.set` spans that
 		// applySet's incoming-replica fan-out emits — operators see a
-- 
2.43.0


From 24ec11f738d26a4dc41f568b25003a8c9e7f8125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 74/84] fix: quorum reads count the reads they forward

---
 pkg/backend/dist_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 32a71b3..18e32f5 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2968,6 +2968,8 @@ func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid c
 		return ownerReply{}
 	}
 
+	dm.metrics.forwardGet.Add(1)
+
 	it, ok, err := transport.ForwardGet(ctx, string(oid), key)
 	if errors.Is(err, sentinel.ErrBackendNotFound) { // promotion
 		if idx == 0 {
-- 
2.43.0


From 92f2012362a7529c6e5b8eb339605eab692bb541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:35 +0000
Subject: [PATCH 75/84] fix: a replica's miss on a key the primary holds is
 counted

---
 pkg/backend/dist_memory.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 18e32f5..ee77f41 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2917,11 +2917,23 @@ func (dm *DistMemory) collectQuorum(
 	read := &quorumRead{}
 
 	stale := make([]cluster.NodeID, 0, len(owners))
+	primaryHolds := false
+
 	for idx, oid := range owners {
-		if read.add(dm, dm.fetchOwner(ctx, key, idx, oid)) {
+		reply := dm.fetchOwner(ctx, key, idx, oid)
+		if read.add(dm, reply) {
 			stale = append(stale, oid)
 		}
 
+		switch {
+		case idx == 0:
+			primaryHolds = reply.live
+		case primaryHolds && reply.responded && !reply.live:
+			dm.metrics.replicaGetMiss.Add(1)
+		default:
+			// nothing to count
+		}
+
 		if read.settled(needed) { // early break
 			break
 		}
-- 
2.43.0


From 381a49b5703f08ab2089a34b4641922e49511f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:46 +0000
Subject: [PATCH 76/84] fix: keys in the API's paths are unescaped and outlive
 the request

---
 cmd/hypercache-server/main.go | 52 ++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..9004feb 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,6 +26,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
@@ -173,6 +174,9 @@ var (
 	errOIDCMissingIssuer   = ewrap.New("HYPERCACHE_OIDC_AUDIENCE set without HYPERCACHE_OIDC_ISSUER")
 )
 
+// errMissingKey is returned for a request whose path names no key.
+var errMissingKey = ewrap.New("missing key in path")
+
 // validateOIDCConfig returns nil when OIDC is either fully
 // configured or fully disabled. Returns a wrapped sentinel when
 // only one of (issuer, audience) is set — partial config is the
@@ -679,6 +683,22 @@ const (
 	listKeysHardMax      = 50000
 )
 
+// pathKey returns the :key path segment as the client meant it: percent-escapes
+// are undone, and the string does not share fiber's request buffer, which the
+// next request overwrites.
+func pathKey(c fiber.Ctx) (string, error) {
+	key, err := url.PathUnescape(c.Params("key"))
+	if err != nil {
+		return "", fmt.Errorf("invalid key in path: %w", err)
+	}
+
+	if key == "" {
+		return "", errMissingKey
+	}
+
+	return strings.Clone(key), nil
+}
+
 // handlePut implements PUT /v1/cache/:key.
 // Body is the raw value (any content type). Optional ?ttl=<dur>
 // applies a relative expiration; empty/absent means no expiration.
@@ -687,9 +707,9 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	ttl := time.Duration(0)
@@ -708,7 +728,7 @@ func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
 	value := make([]byte, len(body))
 	copy(value, body) // detach from fiber's pooled body buffer
 
-	err := nodeCtx.hc.Set(c.Context(), key, value, ttl)
+	err = nodeCtx.hc.Set(c.Context(), key, value, ttl)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -875,9 +895,9 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	it, ok := nodeCtx.hc.GetWithInfo(c.Context(), key)
@@ -1174,8 +1194,8 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
+	key, err := pathKey(c)
+	if err != nil {
 		return c.SendStatus(fiber.StatusBadRequest)
 	}
 
@@ -1285,14 +1305,14 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	owners := nodeCtx.hc.ClusterOwners(key)
 
-	err := nodeCtx.hc.Remove(c.Context(), key)
+	err = nodeCtx.hc.Remove(c.Context(), key)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -1310,9 +1330,9 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	return c.JSON(ownersResponse{
-- 
2.43.0


From 6faee0dd542c4713119d66e1a78960db671bb1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:14 +0000
Subject: [PATCH 77/84] fix: the API answers 400 to keys and lifetimes the
 cache refuses

---
 cmd/hypercache-server/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 9004feb..c6f36c4 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -621,11 +621,21 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeDraining, "node is draining; redirect to a peer")
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeInternal, "no ring owners for key (cluster initializing?)")
+	case isBadRequest(err):
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	default:
 		return jsonErr(c, fiber.StatusInternalServerError, codeInternal, err.Error())
 	}
 }
 
+// isBadRequest reports whether the cache refused what the client sent: a blank
+// key or a negative lifetime.
+func isBadRequest(err error) bool {
+	return errors.Is(err, sentinel.ErrInvalidKey) ||
+		errors.Is(err, sentinel.ErrInvalidExpiration) ||
+		errors.Is(err, sentinel.ErrParamCannotBeEmpty)
+}
+
 // putResponse documents the JSON shape returned on a successful PUT.
 // Owners + Node let the operator immediately see where the value
 // landed in the ring — invaluable when debugging cluster topology
@@ -1181,6 +1191,8 @@ func classifyErrCode(err error) string {
 		return codeDraining
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return codeInternal
+	case isBadRequest(err):
+		return codeBadRequest
 	default:
 		return codeInternal
 	}
-- 
2.43.0


From 45a58be62edc341f4d3838102e6bb83383d5f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:14 +0000
Subject: [PATCH 78/84] fix: batch lifetimes out of range are refused

---
 cmd/hypercache-server/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index c6f36c4..a3a101c 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -1104,6 +1105,10 @@ func applyBatchPutItem(ctx context.Context, nodeCtx *nodeContext, item batchPutI
 		return batchPutResult{Key: item.Key, Stored: false, Error: decodeErr.Error(), Code: codeBadRequest}
 	}
 
+	if item.TTLMs > math.MaxInt64/int64(time.Millisecond) || item.TTLMs < math.MinInt64/int64(time.Millisecond) {
+		return batchPutResult{Key: item.Key, Stored: false, Error: "ttl_ms out of range", Code: codeBadRequest}
+	}
+
 	ttl := time.Duration(item.TTLMs) * time.Millisecond
 
 	setErr := nodeCtx.hc.Set(ctx, item.Key, value, ttl)
-- 
2.43.0


From 169e464dd5262b97357e7f3f0dfb2f6a6440aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:38 +0000
Subject: [PATCH 79/84] fix: a body that cannot be decompressed is refused, not
 stored as an error text

---
 cmd/hypercache-server/main.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index a3a101c..239405f 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -710,6 +710,16 @@ func pathKey(c fiber.Ctx) (string, error) {
 	return strings.Clone(key), nil
 }
 
+// requestBody returns the request's body, decompressed if it says it is
+// compressed. Unlike fiber's Body it does not return an error's text as content.
+func requestBody(c fiber.Ctx) ([]byte, error) {
+	if strings.EqualFold(c.Get(fiber.HeaderContentEncoding), "identity") {
+		return c.BodyRaw(), nil
+	}
+
+	return c.Request().BodyUncompressedWithLimit(c.App().Config().BodyLimit)
+}
+
 // handlePut implements PUT /v1/cache/:key.
 // Body is the raw value (any content type). Optional ?ttl=<dur>
 // applies a relative expiration; empty/absent means no expiration.
@@ -734,7 +744,10 @@ func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
 		ttl = parsed
 	}
 
-	body := c.Body()
+	body, err := requestBody(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "invalid body: "+err.Error())
+	}
 
 	value := make([]byte, len(body))
 	copy(value, body) // detach from fiber's pooled body buffer
-- 
2.43.0


From e1ece6f00ba1fef04f2e36fe4da2b198625266aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:38 +0000
Subject: [PATCH 80/84] fix: what API clients send is decoded by encoding/json

---
 cmd/hypercache-server/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 239405f..644051c 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -21,6 +21,7 @@ import (
 	"crypto/tls"
 	"crypto/x509"
 	"encoding/base64"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"log/slog"
@@ -35,7 +36,6 @@ import (
 	"syscall"
 	"time"
 
-	"github.com/goccy/go-json"
 	fiber "github.com/gofiber/fiber/v3"
 	"github.com/hyp3rd/ewrap"
 
-- 
2.43.0


From 83dfe7aeb0d9dcb366e80f4cfb40e1ef52ee0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:39 +0000
Subject: [PATCH 81/84] fix: an identity provider without other credentials
 does not leave the server open

---
 cmd/hypercache-server/main.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 644051c..681156d 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1629,13 +1629,15 @@ func run() int {
 
 	slog.SetDefault(logger)
 
-	// Preserve the pre-v2 zero-config dev posture: when neither
-	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set, the
-	// loader returns the zero Policy, and we explicitly opt into
-	// AllowAnonymous mode here with a loud warning. Without this,
-	// every protected route would 401 — every existing
-	// `docker run hypercache` would break on upgrade.
-	if !cfg.AuthPolicy.IsConfigured() {
+	// Preserve the pre-v2 zero-config dev posture: when none of
+	// HYPERCACHE_AUTH_CONFIG, HYPERCACHE_AUTH_TOKEN and
+	// HYPERCACHE_OIDC_ISSUER is set, the loader returns the zero
+	// Policy, and we explicitly opt into AllowAnonymous mode here
+	// with a loud warning. Without this, every protected route
+	// would 401 — every existing `docker run hypercache` would
+	// break on upgrade. An identity provider is a credential class
+	// too: it must not leave the API open to everyone else.
+	if !cfg.AuthPolicy.IsConfigured() && cfg.OIDCIssuer == "" {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
 				httpauth.EnvAuthConfig + " or " + httpauth.EnvAuthToken + " for production",
-- 
2.43.0


From 1401c21799e6538b84889c647573ea76e13b43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:39 +0000
Subject: [PATCH 82/84] fix: an auth config without credentials does not leave
 the server open

---
 cmd/hypercache-server/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 681156d..a7b0aa1 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1635,9 +1635,10 @@ func run() int {
 	// Policy, and we explicitly opt into AllowAnonymous mode here
 	// with a loud warning. Without this, every protected route
 	// would 401 — every existing `docker run hypercache` would
-	// break on upgrade. An identity provider is a credential class
+	// break on upgrade. An auth config without credentials asks for
+	// what it says (nobody, unless it allows anonymous), and an identity provider is a credential class
 	// too: it must not leave the API open to everyone else.
-	if !cfg.AuthPolicy.IsConfigured() && cfg.OIDCIssuer == "" {
+	if !cfg.AuthPolicy.IsConfigured() && cfg.OIDCIssuer == "" && os.Getenv(httpauth.EnvAuthConfig) == "" {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
 				httpauth.EnvAuthConfig + " or " + httpauth.EnvAuthToken + " for production",
-- 
2.43.0


From 9844cd8ff0f97a1cc7c85f936e50a664d56949c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:12 +0000
Subject: [PATCH 83/84] fix: a client CA without a server certificate is
 refused

---
 cmd/hypercache-server/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index a7b0aa1..4c7059b 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -567,7 +567,7 @@ func runWrappedListener(app *fiber.App, ln net.Listener, logger *slog.Logger) {
 // silently fall through to plaintext when the operator clearly
 // asked for TLS but typo'd one of the paths.
 func buildAPITLSConfig(cfg envConfig) (*tls.Config, error) {
-	if cfg.APITLSCert == "" && cfg.APITLSKey == "" {
+	if cfg.APITLSCert == "" && cfg.APITLSKey == "" && cfg.APITLSCA == "" {
 		return nil, nil //nolint:nilnil // documented "no TLS" sentinel
 	}
 
@@ -1636,8 +1636,9 @@ func run() int {
 	// with a loud warning. Without this, every protected route
 	// would 401 — every existing `docker run hypercache` would
 	// break on upgrade. An auth config without credentials asks for
-	// what it says (nobody, unless it allows anonymous), and an identity provider is a credential class
-	// too: it must not leave the API open to everyone else.
+	// what it says (nobody, unless it allows anonymous), and an
+	// identity provider is a credential class too: neither may leave
+	// the API open to everyone.
 	if !cfg.AuthPolicy.IsConfigured() && cfg.OIDCIssuer == "" && os.Getenv(httpauth.EnvAuthConfig) == "" {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
-- 
2.43.0


From 4a6bbe85fb8b52ba49923c1af9cb20cda15924e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:30 +0000
Subject: [PATCH 84/84] fix: reading another node's copy does not report its
 lifetime as extended

---
 hypercache_io.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hypercache_io.go b/hypercache_io.go
index 88a3541..ff95a4f 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -319,14 +319,19 @@ func (hyperCache *HyperCache[T]) touchItem(ctx context.Context, key string, item
 		return
 	}
 
+	held := true
 	if toucher, ok := hyperCache.backend.(touchBackend); ok {
-		toucher.Touch(ctx, key)
+		held = toucher.Touch(ctx, key)
 	}
 
 	// A read is a use: the eviction policy has to hear of it.
 	hyperCache.evictionAlgorithm.Get(key)
 
-	item.Touch()
+	// Another node's copy does not live longer for this read, and must not be
+	// described as if it did.
+	if held {
+		item.Touch()
+	}
 }
 
 // List lists the items in the cache that meet the specified criteria.
-- 
2.43.0

