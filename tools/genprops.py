#!/usr/local/bin/python3
"""Source of /verif/properties.jsonl (kept as code so that the wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- cluster core
p("C01", "Key placement is a deterministic, stable function of the member set",
  """The owners of a key depend only on the set of member identities, the key and the ring settings: every node that knows
  the same members computes the same owner list, whatever order members were learned in. The list holds exactly
  min(replication factor, members) distinct members, and adding or removing one member only changes owner lists by that
  member entering or leaving them, the survivors keeping their relative order. Virtual nodes spread primary ownership over all members.""",
  ["inputs", "configurations", "histories"], "all member sets, insertion orders, virtual-node counts, replication factors and keys",
  "The unit tests check a couple of fixed rings; the guarantee is over all member sets, orders and keys.",
  ["internal/cluster/ring.go"], [("sorted virtual-node ring, clockwise walk with de-duplication", "internal/cluster/ring.go Build/Lookup")],
  [("vnodes", "sorted ring positions", "internal/cluster/ring.go Ring")], ["Ring.Lookup results", "Ring.VNodeHashes"])
p("C02", "Membership and ring stay coherent under concurrent change",
  """Once concurrent joins, updates and removals have returned, the ring places keys exactly as a ring freshly built from the
  current non-dead members would. The membership version never decreases, advances exactly once per real change and not at all
  on a same-state liveness mark or a change to an unknown member; every observer is told of each change once, with that change's own version. Snapshots handed out are
  copies, membership may be used from many goroutines without data races or deadlock.""",
  ["schedules", "histories"], "all interleavings of upsert, remove, mark, refute, list and lookup on one membership",
  "Tests mutate from one goroutine; the lost-update between computing the member list and installing the ring needs two racing mutators.",
  ["internal/cluster/membership.go", "internal/cluster/ring.go", "internal/cluster/version.go"],
  [("membership lock and ring rebuild on every mutation", "internal/cluster/membership.go Upsert/Remove"), ("atomic version counter", "internal/cluster/version.go")],
  [("nodes", "member map", "internal/cluster/membership.go"), ("ver", "membership epoch", "internal/cluster/version.go")],
  ["Membership.List", "Ring.Lookup", "observers", "Membership.Version"])
p("C03", "Newer membership claims win and a live node always refutes its own death",
  """A node's state transitions carry a strictly increasing incarnation; gossip about a member is adopted exactly when it is newer than what
  the receiver holds, and an older or equal claim never overwrites it. A running node that hears it is suspect or dead answers with an alive
  claim of a higher incarnation than the rumour, so that peers holding the rumour end up seeing it alive.""",
  ["histories", "schedules", "fault_sequences"], "all gossip orders, duplicated and stale snapshots, and rumours about live nodes",
  "The tests send one rumour at a fixed incarnation; stale, duplicated, reordered and far-ahead rumours are not sampled.",
  ["internal/cluster/membership.go", "pkg/backend/dist_memory.go", "pkg/backend/dist_http_server.go"],
  [("higher incarnation wins merge", "pkg/backend/dist_memory.go acceptGossip"), ("self refutation", "internal/cluster/membership.go Refute")],
  [("incarnation", "per-node sequence number", "internal/cluster/node.go")], ["Membership snapshots of every node after gossip rounds"])

# ---------------------------------------------------------------- client SDK
p("C04", "Client failover masks dead endpoints and never retries a definitive answer",
  """For every command the client contacts each known endpoint at most once, moves on after a network error or a 5xx answer, and returns at once on
  any other answer; it succeeds whenever some endpoint it knows answers definitively, and otherwise reports that all endpoints failed together with
  the last status error. Once the caller's context has ended no further endpoint is tried. Requests are spread over the endpoints rather than pinned to one.""",
  ["fault_sequences", "inputs", "configurations"], "all assignments of failure modes (refused, reset, hang, 4xx, 5xx, drain, garbage) to endpoints, all commands, all orders",
  "Tests fix two or three endpoints with one failure mode and one or two commands.",
  ["pkg/client/transport.go", "pkg/client/client.go", "pkg/client/batch.go"],
  [("shuffled endpoint walk with retry classification", "pkg/client/transport.go do"), ("error wrapping", "pkg/client/errors.go")],
  [("endpoints", "known endpoint view", "pkg/client/client.go")], ["request log of scripted servers", "returned errors via errors.Is/As"])
p("C05", "Client commands carry keys, values and TTLs unchanged and decode replies exactly",
  """Whatever key, value bytes and lifetime the caller passes reach the server unchanged (lifetimes at the granularity of the wire format, never turned into no expiry) for single-key and batch commands alike, or the command is refused; the
  value and metadata the server returns reach the caller unchanged. Each batch result is attributed to the right key: every requested item has
  exactly one result, successes and failures are never swapped, and a missing key is reported as missing rather than as an empty value.""",
  ["inputs"], "all keys (any bytes a URL can carry), binary values including empty, lifetimes, batch sizes and per-item outcomes",
  "Tests use a few ASCII keys and short text values.",
  ["pkg/client/client.go", "pkg/client/batch.go", "pkg/client/types.go"],
  [("URL escaping and envelope decoding", "pkg/client/client.go"), ("batch encoding", "pkg/client/batch.go")], (),
  ["requests decoded by an independent reference server", "values returned to the caller"])
p("C06", "Server answers map to the documented client error, never to a false success",
  """A command returns nil exactly when the server answered with success; every other status maps to the documented sentinel for its code
  or status, exposes the server's status, code, message and details, and a success answer whose body is malformed or truncated yields an error, not a panic, a hang or a fabricated value.""",
  ["inputs", "fault_sequences"], "all status codes, envelope codes and body corruptions, for every command",
  "Tests enumerate a handful of well-formed envelopes.",
  ["pkg/client/errors.go", "pkg/client/transport.go", "pkg/client/client.go", "pkg/client/batch.go"],
  [("status error classification", "pkg/client/errors.go")], (), ["errors returned by each command"])
p("C07", "Client credentials: last option wins, sent on every request, transport kept",
  """With several auth options the last one applied decides the credentials, and exactly those are sent on every request the client makes (commands, retries on other
  endpoints and topology refreshes) and no others. A caller-supplied HTTP client keeps its transport and timeout underneath the auth layer and is never modified.""",
  ["configurations", "inputs"], "all sequences of client options and credentials",
  "Tests apply one auth option at a time.",
  ["pkg/client/options.go", "pkg/client/oidc_logging.go"], [("round-tripper wrapping", "pkg/client/options.go")], (),
  ["Authorization headers recorded by the servers", "custom transport call counts"])
p("C08", "Client topology view follows the cluster, never goes empty, and closes cleanly",
  """After a successful refresh the client knows exactly the advertised addresses of the alive or suspect members; a refresh that fails or would leave nothing
  keeps a usable view, and the seed endpoints remain usable for recovery when every discovered endpoint is unreachable. Closing the client (any number of times, from any goroutine) stops its background
  refresh, and all methods may be used concurrently without data races.""",
  ["histories", "schedules", "fault_sequences"], "all membership evolutions, refresh failures, and interleavings of commands, refreshes and close",
  "Tests perform one refresh with a fixed member list and one close.",
  ["pkg/client/topology.go", "pkg/client/client.go"], [("membership refresh loop with seed fallback", "pkg/client/topology.go")],
  [("endpoints", "current endpoint view", "pkg/client/client.go")], ["Client.Endpoints", "server request logs", "goroutine counts"])

# ---------------------------------------------------------------- auth
p("C09", "A request is authenticated exactly as the credential it presents",
  """A policy admits a request under an identity if and only if the request presents a credential (bearer token, basic password, verified client certificate, or
  token accepted by the configured verifier) that the policy maps to that identity, in that order of precedence. Invalid, malformed, truncated, case-altered or other users' credentials
  admit nobody as an identity, basic passwords are refused over plaintext unless allowed, and without any configured credential nobody is admitted unless anonymous access was explicitly enabled; concurrent requests never see each other's identity.""",
  ["inputs", "configurations", "schedules"], "all policies and presented credentials, including near-misses and malformed headers, under concurrency",
  "Tests check single good and bad examples of each credential kind.",
  ["pkg/httpauth/policy.go"], [("resolver chain with constant-time comparison", "pkg/httpauth/policy.go")],
  [("policy", "tokens, users, cert identities", "pkg/httpauth/policy.go Policy")], ["status and identity seen behind the middleware"])
p("C10", "Access needs the scope the route requires",
  """A request passes a scope-guarded route if and only if the identity it authenticated as was granted that scope; an authenticated identity without it is forbidden (403) and an
  unauthenticated one is unauthorized (401), whatever mix of credentials and grants is configured.""",
  ["inputs", "configurations"], "all scope grants, routes and credential kinds", "Tests check a few grant/route pairs.",
  ["pkg/httpauth/policy.go"], [("scope check in the middleware and verifier", "pkg/httpauth/policy.go")], (), ["HTTP status per (credential, scope)"])
p("C11", "Auth configuration loads exactly what it declares or is refused",
  """Loading an auth configuration yields a policy that admits exactly the declared tokens, users and certificates with exactly the declared scopes; anything malformed, ambiguous,
  unknown or incomplete (unknown field, empty secret, unknown scope, bad hash, duplicate) is an error. No input ever produces a policy broader than it declares, and a failed load never yields an open one.""",
  ["inputs", "configurations"], "all YAML documents and environment combinations", "Tests load a few fixed documents.",
  ["pkg/httpauth/loader.go"], [("strict YAML decoding and validation", "pkg/httpauth/loader.go")], (), ["loaded policy probed with credentials", "loader errors"])

# ---------------------------------------------------------------- stats, bus, serializer, redis
p("C12", "Recorded statistics equal the true statistics of the recorded samples",
  """For every metric the reported count and sum equal the number and total of all samples recorded, also under concurrent recording, and min, max, mean, median, percentiles and variance equal
  those of the recorded samples (of the retained window when the retention limit was exceeded, of a subset of the samples when recorders contended); nothing that was not recorded is ever reported. Reading statistics never changes them, returned snapshots never change afterwards, and memory per metric stays bounded.""",
  ["inputs", "schedules", "histories"], "all sample sequences including extreme values, retention limits, and interleavings of recording and reading",
  "Tests record a few small values from one goroutine.",
  ["pkg/stats/histogramcollector.go", "pkg/stats/collector.go", "pkg/stats/stats.go"], [("atomic counters with a bounded sample ring", "pkg/stats/histogramcollector.go")],
  [("samples", "retained window", "pkg/stats/histogramcollector.go")], ["GetStats, Mean, Median, Percentile"])
p("C13", "Event subscribers see each event once, in order, and never stall publishers",
  """Every subscriber receives a subsequence of the published events in strictly increasing version order with no duplicate or altered event; events are lost only when that subscriber's buffer was full, and losses are counted.
  Publishing never blocks on a slow or cancelled subscriber; an unsubscribed or cancelled subscription's channel is closed exactly once, receives nothing published afterwards, and leaves no goroutine behind.""",
  ["schedules", "histories"], "all interleavings of concurrent publishers, subscribers, cancellations and slow readers",
  "Tests use one publisher and fixed subscribers.",
  ["internal/eventbus/bus.go"], [("versioned non-blocking fan-out", "internal/eventbus/bus.go Publish")], [("version", "event sequence", "internal/eventbus/bus.go")],
  ["events received per subscriber", "Bus counters"])
p("C14", "Serialized values decode to what was encoded, or fail loudly",
  """Decoding what a serializer encoded gives back an equal value for every value it supports; input it cannot decode is an error, never a panic or a partially filled success. A serializer chosen by name is the one requested,
  an unknown name is an error, and serializers may be shared between goroutines.""",
  ["inputs", "schedules"], "all supported values and arbitrary input bytes", "No direct tests exist for serializers.",
  ["internal/libs/serializer/serializer.go", "internal/libs/serializer/json.go", "internal/libs/serializer/msgpack.go"],
  [("serializer registry", "internal/libs/serializer/serializer.go")], (), ["Marshal/Unmarshal results"])
p("C15", "Redis connection settings reach the client as configured",
  """Each option of the Redis and Redis-cluster stores sets exactly the connection setting it names to the value given, leaves all others at their defaults, and later options win;
  construction without a usable address is refused instead of silently using another server.""",
  ["configurations"], "all option subsets, orders and values", "These packages have no tests.",
  ["pkg/backend/redis/options.go", "pkg/backend/redis/store.go", "pkg/backend/rediscluster/options.go", "pkg/backend/rediscluster/store.go"],
  [("functional options over the client's option struct", "pkg/backend/redis/options.go")], (), ["options of the constructed client", "wire handshake at a fake server"])
p("C16", "The Redis backend stores, expires, lists and removes exactly the cache's items",
  """Over a Redis server, an item set through the backend is read back equal, with the lifetime it was set with, until it is removed, overwritten, cleared or expires;
  listing and counting report exactly the live cached items, removal or clearing leaves nothing behind, and an operation that could not be carried out is reported as failed.""",
  ["histories", "inputs"], "all operation sequences, keys and items against a Redis-protocol server", "No test exercises the Redis backends (they need a server).",
  ["pkg/backend/redis.go", "pkg/backend/redis_cluster.go", "pkg/backend/redis_common.go"], [("hash per item plus key set", "pkg/backend/redis_common.go")], (),
  ["backend results against a reference model", "server state after each step"])

# ---------------------------------------------------------------- embedded cache
p("C20", "Concurrent cache operations behave as if executed one at a time",
  """Operations on the embedded in-memory cache and its sharded store are linearizable per key: a read returns the latest completed write, removal or clear, or one concurrent with the read, and concurrent use from
  any number of goroutines causes no data race, crash or deadlock. Values are returned whole: a reader never sees parts of two writes.""",
  ["schedules", "histories"], "all interleavings of set, get, get-or-set, get-multiple, remove, clear and list",
  "Tests are sequential or check only for crashes.",
  ["hypercache_io.go", "pkg/backend/inmemory.go", "pkg/cache/v2/cmap.go", "pkg/cache/v2/item.go"], [("sharded map with per-shard locks", "pkg/cache/v2/cmap.go")],
  [("shards", "key space", "pkg/cache/v2/cmap.go")], ["recorded call/return histories checked for linearizability"])
p("C21", "Expired items are never served and live items are never expired",
  """An item read after its lifetime has elapsed is reported missing; an item whose lifetime has not elapsed, or that never expires, is never removed or hidden by expiration, even when it replaces an expired item under the same key
  at the moment the background sweep runs. Expired items are eventually reclaimed without being accessed.""",
  ["schedules", "inputs", "histories"], "all lifetimes, sweep timings and overwrite/expiry interleavings",
  "Tests sleep past one expiry; the sweep racing with a fresh write is not sampled.",
  ["hypercache_expiration.go", "pkg/cache/v2/item.go", "hypercache_io.go"], [("lazy expiry on read plus background sweep", "hypercache_expiration.go")],
  [("expiration and last update", "item lifetime", "pkg/cache/v2/item.go")], ["reads around the deadline", "presence of never-expiring items"])
p("C22", "Size accounting is exact and configured limits hold",
  """When the cache is quiescent the reported allocation equals the total size of the items it holds and the reported count their number, after any history of overwrites, failed writes, removals, evictions, expirations and clears. A write that
  would exceed the configured memory limit is refused without side effects, and a write that fits is not refused. With a capacity set, the number of items returns to at most that capacity, and nothing is evicted while the cache is within it.""",
  ["histories", "schedules", "inputs"], "all operation sequences and interleavings, item sizes and limits", "Tests add a few items once.",
  ["hypercache_io.go", "hypercache_eviction.go", "hypercache_expiration.go", "hypercache.go"], [("allocation counter updated around backend calls", "hypercache_io.go")],
  [("memory allocation", "accounted bytes", "hypercache.go")], ["Allocation, Count against listed items"])
p("C23", "Eviction algorithms keep their tracked set exact and evict by policy",
  """Each eviction algorithm tracks exactly the keys set and not since deleted or evicted, up to its capacity; evicting returns a tracked key and untracks it, fails only when nothing is tracked, and picks the victim its policy prescribes
  (least recently used, least frequently used, and so on); so does the cache when it makes room, reads counting as uses. This holds for any concurrent use, without races, and every algorithm name yields a working instance.""",
  ["histories", "schedules", "inputs"], "all sequences of set, get, delete and evict, capacities and algorithms", "Tests run one short script per algorithm.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/arc.go", "pkg/eviction/cawolfu.go", "pkg/eviction/sharded.go", "pkg/eviction/eviction.go"],
  [("per-algorithm queue and map", "pkg/eviction/*.go")], (), ["Evict/Get results against reference models"])
p("C24", "The cache always shuts down, and every queued job runs exactly once",
  """Stopping a cache returns, may be repeated or raced from several goroutines, ends all its background activity, its HTTP server and its distributed backend included, and leaves no goroutine behind, whatever was in flight; so does failing to build one. Every job accepted by the worker pool runs exactly once before shutdown
  completes, failing jobs do not stop the others, and triggering eviction or expiration keeps working for the cache's whole life.""",
  ["schedules", "histories"], "all interleavings of operations, triggers, job failures, resizes and stop", "Tests stop an idle cache once.",
  ["pool.go", "hypercache.go", "hypercache_construct.go", "hypercache_eviction.go", "hypercache_expiration.go"], [("worker pool and stop channels", "pool.go")], (),
  ["job execution counts", "goroutine counts after stop", "progress of triggers"])
p("C25", "Typed and service views return what was stored and change nothing else",
  """A typed view returns exactly the value stored under the key or reports a type mismatch, never another type's value; wrapping a cache with any combination of logging, metrics, tracing or stats middleware returns the same
  results and errors, forwards every call exactly once with the same arguments, and reports truthful counts.""",
  ["inputs", "histories", "configurations"], "all operation sequences, value types and middleware stacks", "Tests check single calls.",
  ["hypercache_typed.go", "service.go", "pkg/middleware/logging.go", "pkg/middleware/otel_metrics.go", "pkg/middleware/otel_tracing.go", "pkg/middleware/stats.go"],
  [("delegation", "pkg/middleware/*.go")], (), ["call log of a recording service below the middleware"])
p("C26", "Listing returns exactly the matching items in the requested order",
  """Listing yields every item present throughout the call exactly once and no item absent throughout; filters keep exactly the matching items and sorting orders by the requested field and direction. Sharded-map iteration, counts and removal obey
  the same rule under concurrent mutation.""",
  ["inputs", "schedules", "histories"], "all contents, filters, sort fields and concurrent mutations", "Tests list a few items sequentially.",
  ["pkg/backend/filters.go", "pkg/backend/inmemory.go", "pkg/cache/v2/cmap.go", "hypercache_io.go"], [("filter chain and sort", "pkg/backend/filters.go")], (), ["List results"])
p("C27", "Management endpoints report the cache truthfully and only to the authorized",
  """With an auth function configured, every management endpoint except the health probe answers only requests it admits and control endpoints only those the control check admits, with no side effect on refusal. Admitted reads report the cache's real state and controls
  perform the operation they name; the server starts, serves and shuts down without leaking.""",
  ["configurations", "inputs", "schedules"], "all routes, methods, auth outcomes and cache states", "Tests hit a few routes with auth off.",
  ["management_http.go"], [("route wrapping with the auth functions", "management_http.go")], (), ["status and body per route", "cache state before and after"])

# ---------------------------------------------------------------- distributed backend
p("C30", "A distributed write is acknowledged only by enough owners",
  """A write through any node succeeds only if at least the number of owners its consistency level requires applied it; otherwise it returns an error, the quorum error when it reached some owners but too few. With all owners reachable it always succeeds and every owner then
  holds the value; a removal with all owners reachable leaves the key on none of them. Only nodes that own the key accept and store it, whichever node the client contacted.""",
  ["fault_sequences", "configurations", "inputs"], "all cluster sizes, replication factors, consistency levels, contact nodes and sets of unreachable owners",
  "Tests fix one topology and one failed node.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"], [("owner fan-out with acknowledgement counting", "pkg/backend/dist_memory.go Set")],
  [("write metrics", "attempts, acks, failures", "pkg/backend/dist_memory.go")], ["Set/Remove results against per-node local contents"])
p("C31", "Acknowledged distributed writes are read back through any node",
  """After a write is acknowledged at quorum or all, a read at quorum or all through any node returns that write or a newer one as long as no more owners are unreachable than the levels tolerate, and never a value nobody wrote; after a
  removal made with all owners reachable, reads report the key missing until it is written again. Values (JSON-equivalent where the HTTP transport carries them), versions and lifetimes survive forwarding, replication and read repair unchanged, and concurrent use of one node is free of data races.""",
  ["histories", "schedules", "fault_sequences"], "all interleavings of reads, writes and removals through all nodes, with tolerated node failures", "Tests write once and read once.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go"], [("quorum reads with version selection and read repair", "pkg/backend/dist_memory.go Get")], (), ["recorded client histories", "per-node contents"])
p("C32", "Replicas converge to the newest version and never move backwards",
  """On every replica the stored version of a key only moves forward in (version, origin) order, whatever order or repetition replication, hints, read repair, migration and anti-entropy messages arrive in. Once the network is healed and synchronisation has run both ways, all owners of a key hold
  the same, newest acknowledged version of it (for a deleted key: none of them holds a copy; an owner that never knew the key need not hold the delete marker).""",
  ["schedules", "histories", "fault_sequences"], "all delivery orders, duplications and losses of replication traffic, followed by repair", "Tests deliver messages in order.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go", "pkg/backend/dist_http_server.go"], [("version compare on apply", "pkg/backend/dist_memory.go applySet"), ("Merkle diff and pull", "pkg/backend/dist_memory.go SyncWith")],
  [("version and origin", "per-item ordering", "pkg/cache/v2/item.go")], ["per-node item versions over time"])
p("C33", "A deleted key stays deleted and synchronisation loses no live key",
  """Once a removal was applied on the owners, stale copies (delayed replication, hints, read repair, anti-entropy with a stale peer) do not bring the key back before its delete marker expires, while a later write does. Synchronising with a peer never destroys
  a live newer value.""",
  ["histories", "fault_sequences", "schedules"], "all histories of writes, removals, stale deliveries and synchronisations", "One scripted tombstone test exists.",
  ["pkg/backend/dist_memory.go"], [("versioned tombstones", "pkg/backend/dist_memory.go applyRemove")], [("tombs", "delete markers", "pkg/backend/dist_memory.go")], ["reads after stale deliveries"])
p("C34", "Hinted writes are bounded, exactly accounted and delivered on recovery",
  """A write that could not reach an owner is queued for it; queued hints never exceed the per-node, total and byte limits, and the reported queue counts and bytes always equal what is queued. Each queued hint ends exactly once as delivered, expired or dropped and is counted as such; once the owner
  is reachable again all unexpired hints reach it.""",
  ["fault_sequences", "histories", "schedules"], "all limits, outage patterns and replay interleavings", "Tests queue one or two hints.",
  ["pkg/backend/dist_memory.go"], [("per-node hint queue with caps and replay loop", "pkg/backend/dist_memory.go queueHint/replayHints")], [("hints", "per-node queues", "pkg/backend/dist_memory.go")], ["hint metrics", "target node contents"])
p("C35", "Rebalancing moves every key to its owners without losing any",
  """After members join, leave or die one change after another (each settled before the next, the transport healthy), rebalancing alone leaves every key that has a surviving copy held by all its current owners at its latest surviving version; after overlapping changes, or the restart of a node with empty memory, rebalancing together with anti-entropy does. A node sheds a key it no longer owns only after the configured grace, and never a key it owns.""",
  ["histories", "configurations", "fault_sequences"], "all membership changes, batch sizes, concurrency limits and key sets", "Tests check single joins with counters.",
  ["pkg/backend/dist_memory.go"], [("ownership scan, migration batches and shedding", "pkg/backend/dist_memory.go rebalance")], (), ["per-node contents before and after membership changes"])
p("C36", "Draining refuses writes, stopping is clean",
  """A draining node refuses client writes and removals with the draining error, reports itself unhealthy on its HTTP health endpoint and keeps serving reads; draining twice is harmless. Stopping a node under load returns, ends all its background activity and listeners, never panics,
  and leaves the rest of the cluster working.""",
  ["schedules", "histories"], "all interleavings of drain, stop and in-flight operations", "Tests drain and stop idle nodes.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_http_server.go"], [("drain flag and stop sequence", "pkg/backend/dist_memory.go Drain/Stop")], (), ["operation results after drain", "goroutines after stop"])
p("C37", "Failure detection finds dead peers and spares live ones",
  """A peer that stops answering becomes suspect and then dead and is dropped from placement within the configured windows; a peer that keeps answering, directly or through a relay when indirect probing is on, is never declared dead, and a suspect that answers again is restored, as is a dropped one once it joins again through gossip or its seeds. The reported member counts match the membership.""",
  ["fault_sequences", "schedules", "configurations"], "all crash, partition and recovery patterns", "Tests kill one node under one setting.",
  ["pkg/backend/dist_memory.go"], [("heartbeat with suspicion and indirect probes", "pkg/backend/dist_memory.go runHeartbeatTick")], (), ["member states over time", "metrics"])
p("C38", "Peer requests over HTTP are authenticated, bounded and lossless",
  """Over the HTTP transport an item fetched or forwarded arrives with exactly the key, a JSON-equivalent value (numbers exact), the version, origin and remaining lifetime it had, with or without compression. With peer authentication configured every peer endpoint rejects requests without the right credential and performs nothing;
  bodies above the configured limits are refused, and malformed requests never crash a node.""",
  ["inputs", "configurations", "fault_sequences"], "all items, limits, compression settings, credentials and malformed requests", "Tests send small text items.",
  ["pkg/backend/dist_http_transport.go", "pkg/backend/dist_http_server.go", "pkg/backend/dist_http_types.go"], [("JSON wire format, auth wrapper, limits", "pkg/backend/dist_http_server.go")], (), ["items compared field by field at both ends", "status per route"])
p("C39", "Cluster-wide key listing is complete and free of duplicates",
  """Listing keys by pattern through any node returns each matching key held in the cluster exactly once, sorted; paging with cursors visits the same set exactly once, and truncation or unreachable peers are always reported when, and only when, something may be missing.""",
  ["inputs", "configurations", "fault_sequences"], "all key sets, patterns, page sizes, limits and unreachable peers", "Tests list small sets.",
  ["pkg/backend/dist_keys.go", "pkg/backend/dist_http_server.go", "pkg/backend/dist_http_transport.go"], [("fan-out with bounded accumulator", "pkg/backend/dist_keys.go")], (), ["list results against per-node contents"])
p("C40", "Fault injection and latency metrics tell the truth",
  """The chaos wrapper with zero rates is indistinguishable from the wrapped transport, with certain drop fails every call without reaching the peer, and counts exactly the faults it injected; operation counters and latency histograms count every operation exactly once, under concurrency.""",
  ["inputs", "schedules", "configurations"], "all rates, calls and interleavings", "Tests sample a few rates.",
  ["pkg/backend/dist_chaos.go", "pkg/backend/dist_latency.go", "pkg/backend/dist_memory_events.go"], [("probabilistic wrapper and atomic histograms", "pkg/backend/dist_chaos.go")], (), ["calls seen by the wrapped transport", "counter deltas"])

# ---------------------------------------------------------------- server binary
p("C50", "The REST API stores and returns exactly what clients send",
  """Through any node of a running server cluster, a value put under any key is returned byte for byte, with its remaining lifetime, until deleted, overwritten or expired (a read renews the lifetime of the copy it reads; without reads it ends one lifetime after the write), whether single-key or batch requests are used and in either response format; one batch item's failure does not affect the others,
  and malformed requests get a 4xx answer and change nothing.""",
  ["inputs", "histories", "configurations"], "all keys, values, lifetimes, batches and request mixes against the running binary", "Handler tests use a few ASCII examples.",
  ["cmd/hypercache-server/main.go"], [("cache and batch handlers", "cmd/hypercache-server/main.go")], (), ["HTTP responses against a reference model"])
p("C51", "Every server route enforces its scope and misconfiguration fails closed",
  """With any credential configured (static, file, or identity provider) every data, ownership, listing and admin route of the server answers only requests whose identity holds the route's scope; the unauthenticated routes are only the documented public ones.
  A configuration that declares auth but yields no usable credential, or is inconsistent, never results in an open server.""",
  ["configurations", "inputs"], "all auth configurations, routes, methods and credentials", "Tests check a few routes with one token.",
  ["cmd/hypercache-server/main.go", "cmd/hypercache-server/oidc.go", "pkg/httpauth/policy.go"], [("scope middleware per route, startup checks", "cmd/hypercache-server/main.go")], (), ["status per (config, route, credential) on the running binary"])
p("C52", "Identity-provider tokens are accepted only when valid for this service",
  """A token from the configured identity provider is accepted only if its signature, issuer, audience and validity period are right, and it grants exactly the scopes its claims carry; any other token is refused.""",
  ["inputs", "configurations"], "all token claims, signatures, algorithms and times", "Tests cover a few claim sets.",
  ["cmd/hypercache-server/oidc.go"], [("OIDC verifier with claim mapping", "cmd/hypercache-server/oidc.go")], (), ["status per forged token on the running binary"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
