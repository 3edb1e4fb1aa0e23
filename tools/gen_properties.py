#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CL = "internal/cluster/"
p("C01", "Hash-ring placement is total, distinct, agreed and minimally disrupted",
  "For every membership set and key, owner lookup returns exactly min(replication factor, members) distinct members, none only when there are no members, and any two nodes holding the same member set and settings compute the same ordered owner list however they learned of the members. When a member leaves, the new owner list is the old one without it plus (at most) one new owner at the end; when a member joins, only keys it comes to own change owners. Equivalently the owners are the first distinct members met walking clockwise from the key's hash over every member's virtual points.",
  ["inputs", "configurations", "histories"], "every key, member set, order of arrival, virtual-node count and replication factor",
  "No test looks at ring placement at all beyond smoke use; placement must hold for every key and membership history.",
  [CL + "ring.go", CL + "node.go"], [("Ring.Build/Lookup", CL + "ring.go")], "Ring.Lookup / VNodeHashes results")
p("C02", "The ring in force always matches the current non-dead membership",
  "Once membership changes (joins, leaves, state changes, refutations) have returned, owner lookups use exactly the members that are currently known and not dead: no removed or dead node owns a key, and no live member is missing. This holds whatever the interleaving of concurrent changes.",
  ["schedules", "histories"], "every interleaving of concurrent joins, removals, state marks and refutations, including dead-to-alive transitions",
  "Membership tests never look at the ring after a change and never run changes concurrently.",
  [CL + "membership.go", CL + "ring.go"], [("ring rebuild on change", CL + "membership.go")], "Membership.List vs Ring.Lookup / VNodeHashes")
p("C03", "Member state, incarnation and membership version evolve only by the SWIM rules",
  "A join or update replaces a member's record; marking a member with a state it does not have sets it and raises its incarnation by one, marking it with the state it has changes neither incarnation nor version, a refutation always makes it alive and raises its incarnation by one, and operations naming unknown members report failure and change nothing. Every effective change raises the membership version by exactly one and the version never goes back; listed members are snapshots that callers cannot use to alter the membership.",
  ["histories", "schedules"], "every sequence and interleaving of membership operations over any members and states",
  "Tests check single transitions on one node, not arbitrary sequences, dead/alive cycles, unknown ids mixed in, or concurrent callers.",
  [CL + "membership.go", CL + "version.go", CL + "node.go"], [("Upsert/Remove/Mark/Refute", CL + "membership.go")], "Membership.List, Version and return values",
  [("nodes", "member records"), ("ver", "membership version")])
p("C04", "Membership observers see each effective change exactly once and nothing else",
  "Every registered observer is called exactly once for each effective membership change made after it registered, with the member, its new state (dead for a removal) and the membership version that change produced, in registration order and after the change is visible; no-op marks and failed operations notify nobody. An observer may itself read or change the membership without deadlock.",
  ["histories", "schedules"], "every sequence and interleaving of changes and registrations",
  "Tests check a handful of single notifications; not sequences, late registration, re-entrancy mixed with no-ops, or concurrency (versions unique and gap-free).",
  [CL + "membership.go"], [("OnStateChange/notify", CL + "membership.go")], "observer callback arguments")
EB = ["internal/eventbus/bus.go"]
p("E01", "Each subscriber gets every event, or the event is counted dropped",
  "Publishing never blocks; each event goes, unmodified apart from its version and a timestamp filled in only if unset, to every subscription open at that moment, unless that subscriber already has 16 undelivered events, in which case only that subscriber misses it and the dropped count rises by exactly one. A slow or abandoned subscriber never affects what others receive.",
  ["histories", "schedules"], "every interleaving of publishes, receives, subscriptions and cancellations",
  "Tests use one or two subscribers and fixed counts; the accounting must hold for any mix of slow, fast, late and departing subscribers.",
  EB, [("Publish/Subscribe", EB[0])], "received events, Dropped()")
p("E02", "Event versions are unique, gap-free and arrive in increasing order",
  "Every publish returns a version one larger than the previous publish on that bus, the delivered event carries that version, and each subscriber receives events in strictly increasing version order even when many goroutines publish concurrently, so a gap in versions always means dropped events.",
  ["schedules", "histories"], "every interleaving of concurrent publishers",
  "The tests publish from one goroutine when they look at order.",
  EB, [("version stamping in Publish", EB[0])], "versions seen by subscribers and returned by Publish")
p("E03", "Subscriptions end exactly once, by unsubscribe or context end, and stay ended",
  "After unsubscribing, or soon after the subscription's context is cancelled, the subscriber's channel is closed once its buffered events are read, nothing more is delivered or counted dropped for it, and the subscriber count no longer includes it. Unsubscribing any number of times, concurrently with publishes and cancellation, is safe and never affects other subscriptions.",
  ["histories", "schedules"], "every order and interleaving of unsubscribe, cancel and publish",
  "Tests check one unsubscribe and one cancel; not repeats, races with publish, or effects on neighbours.",
  EB, [("Subscribe unsub/ctx reaper", EB[0])], "channel closure, SubscriberCount()")
ST = ["pkg/stats/histogramcollector.go"]
p("S01", "Lifetime statistics are exact under any concurrency and magnitude",
  "For every statistic, the reported count, sum, minimum, maximum and mean are those of all values ever recorded for it (a decrement records the negated amount), no matter how many are recorded, from how many goroutines, or whether old samples have left the bounded window. Statistics never mix with each other, and one never recorded is absent from the report and reads as zero.",
  ["inputs", "schedules", "histories"], "every multiset of recorded values (including negative and extreme ones), any number of goroutines and any sample capacity",
  "Tests record a few values with one pattern; exactness must hold for all values, window sizes and interleavings.",
  ST, [("record/GetStats/Mean", ST[0])], "GetStats, Mean")
p("S02", "Median, percentiles and variance summarise exactly the latest sample window",
  "Without concurrent recording, the median, percentiles, sample values and variance reported for a statistic are those of its most recent samples up to the configured capacity, values sorted ascending; percentiles at or below 0 and at or above 1 are the window minimum and maximum, and are monotone in between. Reading statistics never changes them, and an unknown statistic summarises to zero.",
  ["inputs", "histories", "configurations"], "every sequence of recordings, capacity and percentile",
  "Tests cover a few fixed sequences and one wrap-around; the window must be right at every length and wrap position.",
  ST + ["pkg/stats/collector.go"], [("snapshotSorted/percentileOf/medianOf", ST[0])], "Median, Percentile, GetStats")
CLI = ["pkg/client/client.go", "pkg/client/transport.go"]
p("K01", "A request tries each endpoint at most once and stops at the first answer",
  "A request tries each known endpoint at most once, moving on only after a transport failure or a 5xx answer; the first success or 4xx answer ends it and is what the caller gets, and if every endpoint fails the caller gets the all-endpoints-failed error wrapping the last failure. Every attempt carries the same method, path, headers and complete body.",
  ["fault_sequences", "inputs", "schedules"], "every assignment of outcomes to endpoints, every number of endpoints, order of trial and concurrent callers",
  "Tests try a couple of outcome combinations; the order is random, so most orders and mixes are never forced.",
  CLI, [("do/tryOnce/isRetryable", "pkg/client/transport.go")], "requests seen by each endpoint and the call's result")
p("K02", "Server answers map to the documented client errors",
  "Every non-2xx answer becomes a status error carrying the HTTP status, and the server's code, message and details when it sent the canonical error body (otherwise an empty code and the body, cut at 256 bytes); it matches the not-found, unauthorized, forbidden, draining, bad-request and internal sentinels exactly as documented by code or, without one, by status, and no others.",
  ["inputs"], "every status, code and body shape",
  "Tests sample a few status/code pairs.",
  ["pkg/client/errors.go", "pkg/client/transport.go"], [("StatusError.Is/classifyResponse", "pkg/client/errors.go")], "errors.Is / errors.As on returned errors")
p("K03", "Topology refresh adopts exactly the live members and never strands the client",
  "After a successful refresh the client uses exactly the API addresses advertised by members that are not dead, completed with the seeds' scheme unless they carry their own; a refresh that fails or yields no usable address leaves the current view unchanged. Seeds remain usable, refreshing runs only when configured, and closing the client stops it and is safe to repeat.",
  ["histories", "fault_sequences", "inputs"], "every sequence of member lists, failures, refreshes and requests",
  "Tests refresh once or twice from fixed lists.",
  ["pkg/client/topology.go", "pkg/client/client.go"], [("RefreshTopology/currentEndpoints", "pkg/client/topology.go")], "Endpoints() and where later requests go")
p("K04", "Batch calls return one faithful result per requested key in order",
  "A batch get, set or delete sends exactly the given keys, byte-exact values and positive TTLs in one request and returns, in order, one result per server result with its value bytes, metadata and success flag intact; a failed item carries an error matching the same sentinels as the single-key call, without failing its neighbours, and an empty batch is answered without error.",
  ["inputs", "fault_sequences"], "every batch of keys, values, TTLs and per-item outcomes",
  "Tests use two- or three-item batches with text values.",
  ["pkg/client/batch.go", "pkg/client/errors.go"], [("BatchGet/BatchSet/BatchDelete", "pkg/client/batch.go")], "request bodies and returned results")
p("K05", "Single-key calls address exactly the given key and preserve its bytes",
  "Set, get, get-item and delete address exactly the key given, whatever characters it contains, and carry value bytes unchanged; a positive TTL is sent and none otherwise, metadata is returned as the server stated it, a missing key is the not-found error, and the capability and identity calls report what the server resolved.",
  ["inputs"], "every key, value and TTL",
  "Tests use simple ASCII keys and values.",
  CLI + ["pkg/client/types.go"], [("Set/Get/GetItem/Delete/Can/Identity", "pkg/client/client.go")], "requests seen by a server and returned values")
p("K06", "Configured credentials and HTTP settings apply to every attempt",
  "Every request the client sends, on every endpoint, retry and refresh, carries the configured credentials (the last credential option wins) and goes through the HTTP client the caller supplied, keeping its transport and timeout; without credentials none are sent. Invalid construction (no seeds, too-frequent refresh, empty credentials) is refused.",
  ["configurations", "inputs"], "every combination and order of options",
  "Tests check one auth option at a time with the default transport.",
  ["pkg/client/options.go", "pkg/client/client.go"], [("With* options", "pkg/client/options.go")], "headers seen by the server, transport used")
AU = ["pkg/httpauth/policy.go"]
p("A01", "Requests get only the identity and scopes their credentials resolve to",
  "Each request resolves to the first of: the configured bearer token it presents exactly, the configured username whose password it presents, the configured common name of its verified certificate, the identity accepted by the custom verifier, or (only if anonymous access is on) an anonymous identity with every scope; otherwise it is refused with 401. A resolved identity without the exact required scope is refused with 403 and the handler does not run; otherwise the handler sees that identity, and its reported capabilities are exactly its scopes.",
  ["configurations", "inputs"], "every policy and every combination of presented credentials, required scope and anonymous flag",
  "Tests cover single mechanisms; precedence and mismatches across mixed mechanisms form a product no test enumerates.",
  AU, [("resolve/Middleware/Verify", AU[0])], "status code, identity seen by the handler")
p("A02", "Passwords and certificates are honoured only over the transport that proves them",
  "Basic credentials are refused over plaintext unless explicitly allowed, a certificate identity is honoured only from a verified chain whose leaf's common name equals a configured one exactly, and malformed authorization headers never authenticate or crash. Case, whitespace, prefix or substring variations of a secret or name never match.",
  ["inputs", "configurations"], "every header shape, TLS state and policy",
  "Tests sample one or two malformed headers.",
  AU, [("resolveBasic/resolveCert/parseBasicHeader", AU[0])], "status code for requests over plaintext, TLS and mutual TLS")
p("A03", "Policy loading is fail-closed and faithful",
  "The policy file named in the environment, else the single token in the environment (all scopes), else nothing, determines the policy; a file that is missing, malformed, has unknown fields, unknown or empty scopes, or empty credentials is an error and yields no usable policy. A loaded policy grants exactly the identities and scopes written, anonymous access only when written, and errors never reveal secrets.",
  ["inputs", "configurations"], "every environment and policy document",
  "Tests sample a few documents.",
  ["pkg/httpauth/loader.go", AU[0]], [("LoadFromEnv/LoadFromFile/Validate", "pkg/httpauth/loader.go")], "returned policy and error")
p("Z01", "Serializers round-trip every supported value and reject unknown names",
  "Decoding what the default serializer encoded yields the original value, whatever has been encoded since; a serializer that is disabled (msgpack) refuses with an error and never yields data, as does any value that cannot be represented. Requesting an unregistered or empty serializer name is an error, registering a name makes it (and only it) available, and registries are independent of each other.",
  ["inputs", "histories"], "every value, name and sequence of registrations",
  "The serializer package has no tests.",
  ["internal/libs/serializer/serializer.go", "internal/libs/serializer/json.go", "internal/libs/serializer/msgpack.go"], [("Registry.New/Register", "internal/libs/serializer/serializer.go")], "Marshal/Unmarshal results, New errors")
p("Z02", "Plugin registries resolve a name to exactly what was registered",
  "In the eviction-algorithm and statistics-collector registries a name resolves to a fresh instance from the constructor last registered under exactly that name in that registry; the documented defaults are present in a default registry and absent from an empty one; empty names, unknown names and negative capacities are refused with their own errors; registering in one registry never affects another or the package-level constructors.",
  ["histories", "inputs"], "every sequence of registrations and resolutions across registries",
  "Tests resolve the defaults once each.",
  ["pkg/eviction/eviction.go", "pkg/stats/collector.go"], [("AlgorithmRegistry", "pkg/eviction/eviction.go"), ("CollectorRegistry", "pkg/stats/collector.go")], "resolved instances and errors")
HC = ["hypercache.go", "hypercache_io.go"]
p("H01", "The cache behaves as a map under its public operations",
  "Set then get returns the value until it is overwritten, removed, cleared, evicted or expires; get-or-set stores only if absent and returns the value now held; get-multiple returns exactly the present keys' values and an error for each other key; remove and clear remove exactly what they name; count and list agree with the keys present; empty keys and nil values are refused without effect.",
  ["histories", "inputs"], "every sequence of public cache operations",
  "Tests exercise each operation alone; interactions over long histories are not covered.",
  HC + ["pkg/backend/inmemory.go"], [("Set/Get/GetOrSet/GetMultiple/Remove/Clear/List", "hypercache_io.go")], "return values, Count, List")
p("H02", "Expired items are never served and live items never vanish early",
  "An item stored with a positive expiration is not returned by any lookup (get, get with info, get-or-set, get-multiple, typed or not) once that long has passed since it was last stored or accessed, and an item that has not expired, or has no expiration, is never dropped by expiration. Expired items are eventually purged from the cache and its totals.",
  ["histories", "inputs"], "every history of stores, reads, touches and expiry passes",
  "Tests sleep past one expiration.",
  ["hypercache_io.go", "hypercache_expiration.go", "pkg/cache/v2/item.go"], [("Expired checks, expirationLoop", "hypercache_expiration.go")], "reads, Count")
p("H03", "The size total equals the sizes of the items held and the limit is enforced",
  "At every quiescent moment the reported allocation equals the sum of the sizes of the items currently in the cache, through stores, overwrites, refused stores, removals, repeated or missing keys, expiry, eviction and clearing. A store that would exceed the configured maximum is refused with the cache-full error and changes nothing, and a store that fits is not refused for lack of space.",
  ["histories", "inputs"], "every history of operations and sizes",
  "Tests add a few items once; overwrites and failures are not tracked.",
  ["hypercache_io.go", "hypercache_expiration.go", "hypercache_eviction.go"], [("memoryAllocation accounting", "hypercache_io.go")], "Allocation(), Set errors", [("memoryAllocation", "running byte total")])
p("H04", "Capacity is enforced by evicting tracked items in the algorithm's order",
  "With immediate eviction configured, the item count never exceeds a positive capacity after a store returns, the evicted items are those the configured algorithm ranks first, no more are evicted than needed (also when stores run concurrently), and the item just stored is not lost while others could be evicted; lowering the capacity evicts down to it.",
  ["histories", "configurations"], "every history, algorithm and capacity",
  "Tests insert one or two more than capacity.",
  ["hypercache_eviction.go", "hypercache_io.go"], [("evictItem/SetCapacity", "hypercache_eviction.go")], "Count, remaining keys")
p("H05", "The typed view never returns a value of another type",
  "Values stored through a typed view read back unchanged through it and through the untyped cache; a value of another type under the key is reported as a type mismatch, never silently converted or zeroed, and multi-key reads partition keys into found and failed exactly.",
  ["inputs", "histories"], "every mix of typed and untyped operations",
  "Tests check one type pair.",
  ["hypercache_typed.go"], [("Typed", "hypercache_typed.go")], "return values and errors")
p("H06", "Listing applies filters and sorting exactly",
  "Listing with a filter returns exactly the stored items satisfying it, listing with a sort returns them ordered by the requested field ascending or, when requested, descending, and an unsupported field is an error.",
  ["inputs"], "every content, predicate and sort field and order",
  "Tests sort three items.",
  ["pkg/backend/filters.go", "pkg/backend/inmemory.go"], [("filters", "pkg/backend/filters.go")], "List results")
p("H07", "Service middleware is transparent and counts truthfully",
  "Wrapping the cache with the statistics, logging or tracing middleware changes no operation's arguments, results or effects, and the statistics middleware records each operation's count and duration exactly once.",
  ["histories"], "every sequence of operations through any stack of middleware",
  "Tests call each wrapper method once, if at all.",
  ["pkg/middleware/stats.go", "pkg/middleware/logging.go", "service.go"], [("ApplyMiddleware", "service.go")], "results with and without middleware")
EV = "pkg/eviction/"
p("V01", "LRU evicts exactly the least recently used key",
  "For every sequence of stores, reads, deletions and evictions, the LRU algorithm holds at most its capacity, reads return the last stored value, a store into a full cache displaces exactly the least recently used key, and an eviction names it; with nothing held eviction reports none.",
  ["histories"], "every operation sequence, key set and capacity including zero",
  "Tests run one or two short sequences.",
  [EV + "lru.go"], [("LRU", EV + "lru.go")], "Get/Evict results")
p("V02", "LFU evicts the least frequently used key, oldest first on ties",
  "For every sequence of stores, reads, deletions and evictions, the LFU algorithm holds at most its capacity, displaces and evicts exactly a key with the lowest use count (stores and reads both count), the least recently used among equals, and reads return the last stored value.",
  ["histories"], "every operation sequence, key set and capacity including zero",
  "Tests run one or two short sequences.",
  [EV + "lfu.go"], [("LFU", EV + "lfu.go")], "Get/Evict results")
p("V03", "Every eviction algorithm tracks exactly its resident keys within capacity",
  "Whatever the algorithm, after any sequence of stores, reads, deletions and evictions it holds at most its capacity; a key just stored is held (when capacity is positive), a deleted or evicted key is not, every read returns the last value stored under that key or nothing, and evicting repeatedly names each held key exactly once before reporting none.",
  ["histories", "configurations"], "every algorithm, sharding, capacity and operation sequence",
  "Tests assert isolated behaviours of some algorithms.",
  [EV + "clock.go", EV + "cawolfu.go", EV + "arc.go", EV + "sharded.go", EV + "lru.go", EV + "lfu.go"], [("IAlgorithm", EV + "eviction.go")], "Set/Get/Delete/Evict results")
p("M01", "The concurrent map is linearizable with an exact count",
  "Concurrent stores, reads, pops, removals and clears on the sharded map take effect atomically per key, as in some sequential order consistent with real time; the count equals the number of entries held, iteration yields exactly the entries held throughout, and returned copies are isolated from later changes.",
  ["schedules", "histories"], "every interleaving of operations over any keys",
  "Tests use fixed goroutine patterns and check end states.",
  ["pkg/cache/v2/cmap.go", "pkg/cache/v2/item.go"], [("ConcurrentMap", "pkg/cache/v2/cmap.go")], "operation results, Count, All")
p("W01", "The worker pool runs each accepted job once and always shuts down",
  "In a pool of at least one worker, every job accepted before shutdown runs exactly once, never more concurrently than the current number of workers, and shutdown returns only after accepted jobs have finished; jobs offered after shutdown never run, resizing up or down loses or repeats no job, and failing jobs whose errors nobody reads do not stop other jobs or shutdown.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of submissions, resizes, failures and shutdown",
  "Tests submit a few successful jobs.",
  ["pool.go"], [("WorkerPool", "pool.go")], "job executions, Shutdown return")
DM = "pkg/backend/dist_memory.go"
p("D01", "A distributed write succeeds exactly when enough owners acknowledged it",
  "When the members' views agree, a write accepted on the key's primary is stored there and sent to every replica owner, and reports success if and only if at least the required number of owners (one, a majority, or all) acknowledged it (an owner keeps a newer copy it already holds), otherwise the quorum-failed error; a write issued elsewhere reaches the primary, whose verdict is returned, or a replica owner takes over when the primary is unreachable, and a node outside the owners never stores it.",
  ["fault_sequences", "configurations", "histories"], "every pattern of unreachable owners, issuing node, replication factor and consistency level",
  "Tests fail one fixed node in a fixed cluster.",
  [DM, "pkg/backend/dist_transport.go"], [("setImpl/replicateTo/requiredAcks", DM)], "Set error, per-node contents")
p("D02", "A distributed read returns the newest copy among the owners it had to consult",
  "A read returns a value only if the required number of owners answered with one, the value it returns is the newest (highest version, then smallest origin) among those answers, and afterwards no reachable owner it repairs holds an older copy; with enough owners unreachable it reports a miss instead of a guess.",
  ["fault_sequences", "histories", "configurations"], "every distribution of versions over owners, unreachable set, and level, sequential or parallel",
  "Tests plant one stale copy.",
  [DM], [("getWithConsistency/chooseNewer/repairReplicas", DM)], "Get result, per-node versions")
p("D03", "A replica never replaces a newer copy with an older one",
  "When a copy of a key arrives at a node from a peer (replication, hint replay, read repair, migration or anti-entropy), the node ends up with the newer of the arriving and held copies, by version then origin, whatever the order and number of arrivals, so replicas that received the same set of copies agree.",
  ["histories", "schedules", "fault_sequences"], "every order, duplication and interleaving of copy arrivals",
  "Tests deliver copies in order.",
  [DM, "pkg/backend/dist_transport.go"], [("applySet/applyForwardedSet", DM)], "per-node version and value after arrivals")
p("D04", "Deletes reach every reachable owner and are not undone by older copies",
  "A delete removes the key from every reachable owner whichever node it is issued on, leaving at each a tombstone one version above the copy deleted there; until the tombstone expires no copy at or below its version, arriving by any path, brings the key back, while a later write (versioned above it) does; tombstones are purged only after their configured lifetime.",
  ["histories", "fault_sequences"], "every history of writes, deletes, syncs and unreachable nodes",
  "Tests run one delete scenario.",
  [DM], [("applyRemove/fetchAndAdopt/compactTombstones", DM)], "per-node contents, tombstone metrics")
p("D05", "Missed replica writes are kept as hints and delivered when the replica returns",
  "Every replica write that fails for any reason is queued for that replica (within configured per-node, total and byte caps) and delivered on a replay after the replica is reachable again and before the hint expires; undelivered unexpired hints are kept, expired ones are discarded, and the reported totals equal the hints actually queued.",
  ["fault_sequences", "histories", "configurations"], "every sequence of failures, recoveries, replays, expiries and cap settings",
  "Tests queue one or two hints.",
  [DM], [("queueHint/replayHints", DM)], "hint metrics, replica contents")
p("D06", "Anti-entropy detects every divergence and is silent when there is none",
  "Two nodes' digests (at equal chunk size) are equal exactly when they hold the same keys, tombstones included, at the same versions, regardless of insertion order, and after a node synchronises with a reachable peer it holds, for every key the peer holds, a copy at least as new; keys on which they already agree are untouched.",
  ["histories", "inputs"], "every pair of contents and chunk size",
  "Tests diverge on one or two keys.",
  [DM], [("BuildMerkleTree/DiffLeafRanges/SyncWith", DM)], "tree roots, contents after SyncWith")
p("D07", "Rebalancing moves copies to new owners without losing any key",
  "When rebalancing runs on every live node after each membership change, then once it has run with all members reachable and hints replayed, every key still held anywhere is held by all its current owners with its newest value, and at no moment during migration, including when a target is unreachable, does the newest copy of a key vanish from every node and from every unexpired queued hint.",
  ["histories", "fault_sequences"], "every membership change, key set and target failure",
  "Tests move a few keys to one new node.",
  [DM], [("rebalance/migrateIfNeeded/shedRemovedKeys", DM)], "per-node contents over time")
p("D08", "Failure detection follows SWIM: suspicion, refutation and pruning",
  "A reachable peer is or becomes alive after a probe; an unreachable one is suspected unless a relay reaches it, and pruned after the dead timeout; gossip is adopted only for unknown members or strictly higher incarnations, and a node hearing itself called suspect or dead at its own or a higher incarnation becomes alive at an incarnation above the claim.",
  ["histories", "fault_sequences", "schedules"], "every sequence of probes, gossip and reachability changes",
  "Tests run single transitions.",
  [DM, CL + "membership.go"], [("evaluateLiveness/acceptGossip/refuteIfSuspected", DM)], "membership snapshots")
p("D09", "Draining is one-way and refuses writes while still serving reads",
  "Once draining starts, through the API or its HTTP route, every later write and delete issued on that node is refused with the draining error without effect (copies arriving from peers are still accepted), reads keep working, health reports unavailable, and further drains succeed with no extra effect; stopping is idempotent and safe in any state and order.",
  ["histories", "schedules"], "every sequence of operations, drains and stops",
  "Tests drain once.",
  [DM, "pkg/backend/dist_http_server.go"], [("Drain/Stop", DM)], "Set/Remove errors, /health")
p("D10", "A node never stores a forwarded write for a key it does not own",
  "A write arriving from a peer is stored only if the receiving node's own view makes it an owner of the key; otherwise it is dropped, counted as refused and leaves no copy, and reads and deletes of the key elsewhere are unaffected.",
  ["histories", "inputs"], "every key and divergent pair of membership views",
  "Tests use one key and one view.",
  [DM], [("applyForwardedSet", DM)], "contents, refusal metric")
p("D11", "Cluster key listing is the exact deduplicated union, with gaps reported",
  "Listing keys returns, sorted and without duplicates, exactly the keys matching the pattern held by any reachable live member, up to the limit; it says it was truncated exactly when a matching key was left out for the limit, names exactly the live members that could not be asked, and refuses malformed patterns.",
  ["inputs", "fault_sequences"], "every distribution of keys, pattern, limit and unreachable members",
  "Tests list a few keys.",
  ["pkg/backend/dist_keys.go"], [("ListKeys", "pkg/backend/dist_keys.go")], "ListKeys result")
p("D12", "Fault injection drops exactly what it reports and nothing when disabled",
  "With the chaos transport at drop rate zero every call behaves as on the wrapped transport, at rate one every call fails without reaching the peer, and in between each call either reaches the peer once or is counted dropped; settings changed at run time apply to the next call.",
  ["histories", "configurations"], "every sequence of calls and setting changes",
  "Tests sample counts.",
  ["pkg/backend/dist_chaos.go"], [("chaosTransport", "pkg/backend/dist_chaos.go")], "peer effects, chaos metrics")
p("D13", "Every peer route requires the cluster credentials",
  "With a cluster token or verifier configured, every peer-facing HTTP route refuses requests without valid credentials with 401 and no effect, and peers with matching credentials interoperate; a configuration that signs requests but verifies none is refused unless explicitly allowed.",
  ["inputs", "configurations"], "every route, header and configuration",
  "Tests check a few routes.",
  ["pkg/backend/dist_http_server.go"], [("wrapAuth", "pkg/backend/dist_http_server.go")], "HTTP status and contents")
p("D14", "Queued read repairs keep the newest copy per peer and key and drain on stop",
  "With batched read repair, every repair asked for reaches its peer with the newest version asked for, by the flush interval, when the batch fills, or at stop; superseded repairs are merged and counted.",
  ["histories", "schedules"], "every sequence and interleaving of repairs and flushes",
  "Tests enqueue a few repairs.",
  ["pkg/backend/dist_read_repair.go"], [("repairQueue", "pkg/backend/dist_read_repair.go")], "repairs received by the peer, metrics")
p("D15", "A copy keeps its value and remaining lifetime when it crosses the peer wire",
  "An item written through one node and read through any other, over the HTTP peer transport with or without compression, has the same key, the same value bytes as the server's decoding yields them, the same version and origin, and the same expiration to the millisecond.",
  ["inputs", "configurations"], "every key, value and expiration",
  "Tests use small text values without expiration.",
  ["pkg/backend/dist_http_transport.go", "pkg/backend/dist_http_server.go"], [("ForwardSet/ForwardGet", "pkg/backend/dist_http_transport.go")], "items read at other nodes")
p("D16", "Expiration in a cluster removes what has expired, everywhere, and nothing else",
  "A copy whose lifetime is over is never returned by a read through any node and goes at its node's next expiration pass; a pass on one node removes no copy that has not expired, on that node or on any other, also when nodes hold different writes of a key.",
  ["histories", "schedules"], "every sequence of writes, transfers, reads and passes on every node",
  "Tests never run the expiration loop of a cluster node.",
  ["hypercache_expiration.go", "pkg/backend/dist_memory.go"], [("expiration pass", "hypercache_expiration.go"), ("DropExpired/List", "pkg/backend/dist_memory.go")], "reads through every node, contents of every node")
SV = "cmd/hypercache-server/"
p("N01", "Server routes enforce their scope under every authentication setup",
  "On the server's client API every data route demands read (reads, listings, identity) or write (puts, deletes, batch mutations) scope under the configured policy, only liveness and the API description are open, and the open development mode applies only when no authentication of any kind, including OIDC, is configured.",
  ["configurations", "inputs"], "every route, credential and authentication configuration",
  "Tests check a few routes with tokens only.",
  [SV + "main.go", SV + "oidc.go"], [("registerClientRoutes/run", SV + "main.go")], "HTTP status per route")
p("N02", "What a client stores on the server is what every route returns",
  "A key and value put through any route (single or batch, any characters and bytes) is returned with the same bytes by single get, item get, head metadata and batch get until deleted or expired, invalid requests are refused with the documented code and no effect, and key listing pages partition the key set.",
  ["inputs", "histories"], "every key, value, TTL, route combination",
  "Tests use ASCII keys and text values.",
  [SV + "main.go"], [("handlers", SV + "main.go")], "HTTP responses")
p("N03", "Management routes separate observation from control",
  "On the management server every control route (evict, expire, clear) demands the control credentials and every observation route the observation credentials when configured, health is open, and control routes have exactly their documented effect.",
  ["configurations", "inputs"], "every route and credential combination",
  "Tests hit a few routes.",
  ["management_http.go"], [("mount routes", "management_http.go")], "HTTP status and cache effects")
out = sys.argv[1] if len(sys.argv) > 1 else "/verif/properties.jsonl"
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
for e in P:
    if len(e["title"]) > 80: print("TITLE", e["id"], len(e["title"]))
print(len(P))
