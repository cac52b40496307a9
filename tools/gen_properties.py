#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) per property."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})

# ---------------------------------------------------------------- cluster
P("C01", "Key ownership is a well-formed, order-independent placement",
  "For every set of nodes and every key, the consistent-hash ring returns exactly min(replication, number of nodes) owners, all distinct and all members of the set, and none for an empty set. "
  "The owners depend only on the set of nodes and the key: not on the order in which nodes were listed or joined, nor on earlier ring contents, even when hash positions collide. "
  "The first owner is the node whose virtual position is the first at or after the key's position, wrapping around, and the others follow in ring order.",
  ["inputs", "configurations"], "all hash values (the hash is an arbitrary function), keys, node sets, list orders, replication factors and virtual-node counts within bounds",
  "Tests place a few literal ids with the real hash; collisions, wrap-around ties and order dependence are never sampled.",
  ["internal/cluster/ring.go"], [("Ring.Build / Ring.Lookup", "internal/cluster/ring.go")], ["Ring.Lookup", "Ring.VNodeHashes"])
P("C02", "A membership change only moves ownership to or from the changed node",
  "When one node joins the ring, every key's owner list changes only by possibly gaining that node (other owners keep their relative order and at most the last one drops out); when one node leaves, keys it did not own keep exactly the same owners, and keys it owned keep their remaining owners in order.",
  ["inputs", "histories"], "all hash functions, keys and add/remove pairs within bounds",
  "Tests check the distribution of a sample of keys, not the per-key invariant over all hash placements.",
  ["internal/cluster/ring.go"], [("Ring.Build / Ring.Lookup", "internal/cluster/ring.go")], ["Ring.Lookup"])
P("C03", "Once membership calls return, the ring holds exactly the live members",
  "After any sequence or interleaving of joins, removals, state marks and refutations has returned, every key is owned only by current members that are not marked dead, and each of those takes part in placement exactly as it would in a ring freshly built from the final member list without its dead members.",
  ["histories", "schedules"], "all operation sequences and all interleavings of concurrent membership calls within bounds",
  "The tests call membership from one goroutine; the window between updating the member map and rebuilding the ring needs a specific interleaving.",
  ["internal/cluster/membership.go", "internal/cluster/ring.go"], [("Membership.Upsert / Remove rebuild the ring", "internal/cluster/membership.go")], ["Membership.Ring().Lookup", "Membership.List"])
P("C04", "Member state changes bump incarnation and version exactly once",
  "Marking a known member with a different state changes its state, raises its incarnation by exactly one and advances the membership version; marking it with the state it already has changes neither state nor incarnation nor version; refuting always raises the incarnation by one and leaves the member alive. "
  "Marking or refuting an unknown member reports failure and changes nothing, and removing one returns false.",
  ["histories", "schedules"], "all operation sequences over a small member set, and all interleavings of concurrent calls, within bounds",
  "Tests follow one literal sequence; lost updates between concurrent marks and refutes are not explored.",
  ["internal/cluster/membership.go", "internal/cluster/version.go"], [("Mark / Refute / Remove", "internal/cluster/membership.go")], ["Membership.List", "Membership.Version", "return values"])
P("C05", "Every membership change is announced once, with a fresh version",
  "Each effective change (join or update, removal, state transition, refutation) calls every registered observer exactly once with that node, its resulting state and a version; versions are never zero, never repeated and never larger than the version reported afterwards, and an ineffective call announces nothing. "
  "Observers run without internal locks held, so an observer may call back into membership without deadlock.",
  ["histories", "schedules"], "all operation sequences and interleavings within bounds, observers that re-enter the API",
  "Tests use a single observer and goroutine; duplicates or reuse of versions need concurrent callers.",
  ["internal/cluster/membership.go"], [("notify after unlock", "internal/cluster/membership.go"), ("MembershipVersion.Next", "internal/cluster/version.go")], ["observer callbacks"])
P("C06", "A listed member is a private snapshot; node identity is validated",
  "Changing a node returned by the member list never affects membership, and a list taken before a change is not affected by it. "
  "A node made from an address has a non-empty identifier that is a fixed function of the address when none is given, starts alive with incarnation one, and validates exactly when its address is a non-empty host:port address.",
  ["inputs", "histories"], "all ids, addresses, member sets and state changes within bounds",
  "Tests never mutate a listed node and use fixed addresses.",
  ["internal/cluster/membership.go", "internal/cluster/node.go"], [("Membership.List copies", "internal/cluster/membership.go"), ("NewNode / Validate", "internal/cluster/node.go")], ["Membership.List", "NewNode"])

# ---------------------------------------------------------------- eventbus
P("E01", "Publishing never blocks and accounts for every subscriber",
  "Publish returns without waiting for any subscriber, however slow; for each subscriber registered during the call, the event is either delivered once to its buffer or counted once as dropped, and it is dropped only if that subscriber's buffer was full. "
  "The dropped and subscriber counts equal what happened, at every moment when no call is in progress.",
  ["schedules", "histories"], "all interleavings of publish, subscribe, unsubscribe, receive and context cancellation, buffer sizes and operation counts within bounds",
  "Tests publish from one goroutine and drain sequentially; accounting races need interleavings.",
  ["internal/eventbus/bus.go"], [("Publish", "internal/eventbus/bus.go"), ("drop counting", "internal/eventbus/bus.go")], ["subscriber channels", "Metrics"])
P("E02", "Subscribers see events in publication order with unique versions",
  "Every published event gets its own version, higher than those of all publishes that had already returned, and each subscriber receives events in strictly increasing version order, without duplicates.",
  ["schedules"], "all interleavings of concurrent publishers and receivers within bounds",
  "Single-publisher tests cannot reorder; the inversion needs two publishers interleaved inside the call.",
  ["internal/eventbus/bus.go"], [("version assignment and fan-out", "internal/eventbus/bus.go")], ["subscriber channels"])
P("E03", "Unsubscribing is idempotent, race-free and final",
  "Cancelling a subscription, by its function any number of times or by its context, in any interleaving with publishing, never panics or deadlocks, closes the subscriber's channel exactly once, and removes it: nothing published afterwards reaches it, and the subscriber count returns to what it was. "
  "A subscription made with an already cancelled context ends as well.",
  ["schedules", "histories"], "all interleavings of unsubscribe, context cancellation and publish within bounds",
  "Double-close and send-on-closed-channel panics only occur in particular interleavings the tests do not force.",
  ["internal/eventbus/bus.go"], [("Subscribe / cancel", "internal/eventbus/bus.go")], ["subscriber channel close", "Metrics"])

# ---------------------------------------------------------------- stats
P("S01", "Statistics count every recorded observation exactly once",
  "After any set of concurrent recordings has returned, a statistic's count, sum, minimum and maximum equal those of the multiset of recorded values, for every statistic independently, whichever recording method was used.",
  ["schedules", "inputs"], "all interleavings of recorders and all 64-bit values within bounds",
  "Stress tests sample a few schedules with a constant value; lost updates on first creation or compare-and-swap retries are rare.",
  ["pkg/stats/histogramcollector.go"], [("recordValue and min/max CAS loops", "pkg/stats/histogramcollector.go")], ["GetStats"])
P("S02", "A snapshot never shows impossible values while recording goes on",
  "A statistics snapshot taken at any moment while other goroutines record shows, for each statistic with at least one observation, minimum not above maximum, both among values actually being recorded, and a count not exceeding the recordings started nor below those already returned; it never panics and later recordings never change it.",
  ["schedules"], "all interleavings of recorders and a snapshotting reader within bounds",
  "Tests snapshot after all recorders finished.",
  ["pkg/stats/histogramcollector.go"], [("GetStats snapshot", "pkg/stats/histogramcollector.go")], ["GetStats"])
P("S03", "Derived statistics match their definitions on the retained window",
  "With the retained window being the most recent observations up to its capacity, the median is the middle value (the average of the middle two, rounded, for an even count), the mean is sum over count, the variance is the mean squared deviation, and the percentile for any fraction is an element of the window that is monotone in the fraction and clamps to the smallest and largest element outside zero to one. "
  "With no observations they are zero, and no input makes them panic.",
  ["inputs", "histories"], "all 64-bit observations, all fractions, window lengths within bounds",
  "Tests use small positive literals; overflow at 64-bit extremes, NaN fractions and window wrap are not sampled.",
  ["pkg/stats/histogramcollector.go"], [("Mean/Median/Percentile/variance", "pkg/stats/histogramcollector.go"), ("bounded sample window", "pkg/stats/histogramcollector.go")], ["Mean", "Median", "StdDev", "Variance", "Percentile", "GetStats"])

# ---------------------------------------------------------------- client
P("K01", "Requests fail over across endpoints exactly when that is safe",
  "A client request is sent to each known endpoint at most once, until one gives a conclusive answer: it moves on after a transport failure, a server-side (5xx) or unavailable answer, and stops at the first success or client-side (4xx) answer, which it returns. "
  "If every endpoint failed it returns an error that says so and wraps the last failure; a cancelled context stops it.",
  ["fault_sequences", "inputs"], "all combinations of per-endpoint outcomes (transport error, any status code 100-599) and endpoint counts within bounds, all orders",
  "Tests script a handful of status codes and one dead endpoint.",
  ["pkg/client/transport.go", "pkg/client/client.go"], [("do / tryOnce / failover loop", "pkg/client/transport.go")], ["requests seen by the transport", "returned error"])
P("K02", "Every attempt of a request carries the same, complete request",
  "Each failover attempt of a request uses the same method, path, query, headers, credentials and byte-for-byte the same body as the first, whatever part of the body an earlier failed attempt consumed; the value, key and time-to-live given by the caller arrive unchanged, for any key (any bytes; in batches any text JSON can carry).",
  ["fault_sequences", "inputs"], "all outcome sequences, arbitrary keys, values and durations within bounds",
  "Tests use ASCII keys and do not consume part of the body before failing.",
  ["pkg/client/client.go", "pkg/client/transport.go"], [("body replay / key escaping / ttl query", "pkg/client/client.go")], ["requests seen by the transport"])
P("K03", "Errors are classified by the server's answer",
  "Every non-success answer becomes an error carrying the HTTP status, code, message and details of the server's error body when it has one, and matches exactly the sentinel its status or code documents (not found, unauthorized, forbidden, draining, bad request, internal), no other; an unreadable body never hides the status.",
  ["inputs"], "all status codes and arbitrary code, message and detail strings within bounds",
  "Tests assert a few status and code pairs.",
  ["pkg/client/errors.go", "pkg/client/transport.go"], [("StatusError.Is / classifyResponse", "pkg/client/errors.go, pkg/client/transport.go")], ["errors.Is", "StatusError fields"])
P("K04", "Batch calls report one result per item, and item failures as errors",
  "A batch set, get or delete returns results that correspond one to one, in order, to what the server reported; each item the server marks as failed has a non-nil error of the documented class, and each successful item has none. "
  "An item's time-to-live reaches the server so that a positive duration never becomes unlimited.",
  ["inputs", "histories"], "all server item outcomes, values, errors and durations within bounds",
  "Tests use whole-second durations and well-formed error items.",
  ["pkg/client/batch.go"], [("BatchSet/BatchGet/BatchDelete mapping", "pkg/client/batch.go")], ["batch results", "request body"])
P("K05", "The endpoint view is never empty and tracks live members",
  "The set of endpoints used for requests is never empty; after a topology refresh that yields at least one live member with an address it holds exactly the live members' addresses without duplicates, and after a failed or empty refresh it is unchanged. "
  "Reading or refreshing it concurrently with requests is safe, and a returned endpoint list is a copy.",
  ["inputs", "fault_sequences", "schedules"], "all membership answers (states, addresses, failures) and interleavings within bounds",
  "Tests refresh once against a live in-process server.",
  ["pkg/client/topology.go", "pkg/client/client.go"], [("refresh / currentEndpoints", "pkg/client/topology.go")], ["Endpoints", "requests seen by the transport"])
P("K06", "Closing the client is safe and stops its background work",
  "Close can be called any number of times, from any goroutines and in any interleaving with a running topology refresh, without panic or deadlock, and once it has returned no background refresh is running.",
  ["schedules"], "all interleavings of closers and the refresh loop within bounds",
  "Tests close once.",
  ["pkg/client/client.go", "pkg/client/topology.go"], [("Close / refresh loop", "pkg/client/client.go")], ["Close"])
P("K07", "Client options apply in order and reject invalid settings",
  "Client construction fails exactly on invalid settings (no usable seed, empty credentials or missing OIDC fields, a nil HTTP client, a positive refresh interval below one second). Options take effect in order: the last authentication option's credentials, and no others, are sent on every request (unless an HTTP client is supplied after it), and an authentication option keeps the transport, timeout and redirect policy of the HTTP client supplied before it, also for fetching tokens.",
  ["configurations"], "all option sequences, arbitrary strings and intervals within bounds",
  "Tests construct with a single authentication option.",
  ["pkg/client/options.go", "pkg/client/client.go"], [("options", "pkg/client/options.go")], ["New", "requests seen by the transport"])

# ---------------------------------------------------------------- httpauth
P("A01", "A request is authenticated only by a credential that is configured",
  "A request is let through only if its bearer token equals a configured token, or its basic credentials match a configured user's password hash, or a verified client certificate's common name equals a configured one, or a custom verifier accepts it, or anonymous access is explicitly allowed; otherwise it is refused with 401, and the resolved identity and scopes are exactly those configured for that credential. "
  "When several apply the order is bearer token, basic credentials, certificate, custom verifier, anonymous access. A policy with nothing configured and no anonymous access refuses everything.",
  ["inputs", "configurations"], "all header values, tokens, users, certificates and policy configurations within bounds",
  "Tests exercise one credential kind at a time with fixed strings.",
  ["pkg/httpauth/policy.go"], [("Policy.Verify / resolve", "pkg/httpauth/policy.go")], ["Policy.Verify", "Policy.Middleware"])
P("A02", "A resolved identity passes only with the required scope",
  "An authenticated identity is admitted exactly when it holds the scope the route requires (no scope implies another); lacking it yields 403, never 401, and the handler does not run. "
  "Each scope maps one to one to its advertised capability string.",
  ["inputs", "configurations"], "all scope sets and required scopes, including unknown ones",
  "Tests check a few scope pairs.",
  ["pkg/httpauth/policy.go"], [("HasScope / Middleware", "pkg/httpauth/policy.go"), ("Capabilities", "pkg/httpauth/policy.go")], ["Policy.Verify", "Identity.Capabilities"])
P("A03", "Basic credentials are refused on plaintext unless opted in",
  "Basic credentials sent over a connection that is not TLS are refused unless plaintext was explicitly allowed, for every well-formed or malformed header; a malformed header never panics and never authenticates, and the password is everything after the first colon.",
  ["inputs", "configurations"], "all Authorization header byte strings within bounds",
  "Tests use one valid and a few invalid headers.",
  ["pkg/httpauth/policy.go"], [("parseBasicHeader / resolveBasic", "pkg/httpauth/policy.go")], ["Policy.Verify"])
P("A04", "Authentication configuration is validated and loaded fail-closed",
  "Loading or validating an authentication policy fails for an empty token, an empty identity or name, an unknown or empty scope, an invalid password hash, an unknown field, or a missing or malformed file; a successfully loaded policy contains exactly the configured identities with exactly their scopes, in order. "
  "A policy that is configured with any credential is never treated as unconfigured.",
  ["inputs", "configurations"], "all strings for identities, tokens and scopes within bounds",
  "Tests load a few literal YAML files.",
  ["pkg/httpauth/loader.go", "pkg/httpauth/policy.go"], [("loader / parseScopes / Validate / IsConfigured", "pkg/httpauth/loader.go")], ["LoadFromEnv", "Policy.Validate", "Policy.IsConfigured"])

# ---------------------------------------------------------------- eviction
P("V01", "Eviction policies return what was stored and stay within capacity",
  "For every eviction algorithm and every sequence of sets, gets, deletes and evictions, the number of tracked keys never exceeds the capacity, a get returns the last value set for a tracked key and nothing for an untracked one, a deleted or evicted key is gone, an eviction returns a tracked key and succeeds exactly when one exists, and a set tracks its key, displacing another one only when it is new and the policy is full, and then exactly one. "
  "A capacity of zero tracks nothing and a negative one is rejected.",
  ["histories", "configurations"], "all operation sequences over a small key set, all capacities within bounds",
  "Tests run a fixed sequence per algorithm.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/cawolfu.go", "pkg/eviction/arc.go"], [("Set/Get/Delete/Evict", "pkg/eviction")], ["IAlgorithm methods"])
P("V02", "LRU and LFU evict the key their policy defines",
  "Least-recently-used evicts the tracked key whose last set or get is oldest; least-frequently-used evicts a key with the fewest accesses, the least recently used among equals; both hold for every operation sequence.",
  ["histories"], "all operation sequences over a small key set, all capacities within bounds",
  "Tests assert one hand-written order.",
  ["pkg/eviction/lru.go", "pkg/eviction/lfu.go"], [("LRU list / LFU heap", "pkg/eviction")], ["Evict"])
P("V03", "Sharded eviction routes consistently and is safe under concurrency",
  "In a sharded eviction policy every key always goes to the same shard, the total capacity is the requested one rounded up by less than one slot per shard, eviction succeeds if and only if any shard holds a key, and concurrent use neither races nor loses keys.",
  ["histories", "schedules", "configurations"], "all shard counts that are powers of two, capacities, key hashes and interleavings within bounds",
  "Tests use the real hash and a fixed shard count.",
  ["pkg/eviction/sharded.go"], [("Sharded routing and eviction cursor", "pkg/eviction/sharded.go")], ["IAlgorithm methods"])

# ---------------------------------------------------------------- cache/v2
P("M01", "The concurrent map is linearizable and counts its keys exactly",
  "For every key, every interleaving of sets, gets, pops, removals, existence checks, listings and clears on the concurrent map gives the results some sequential order of the calls would give, and when no call is in progress the reported count equals the number of stored keys. "
  "A copy obtained from the map never changes with later updates.",
  ["schedules", "histories"], "all interleavings of a few operations on colliding and non-colliding keys within bounds",
  "Stress tests sample schedules and check only totals.",
  ["pkg/cache/v2/cmap.go"], [("sharded map with per-shard count", "pkg/cache/v2/cmap.go")], ["ConcurrentMap methods"])
P("M02", "Item validity and expiry follow their definition",
  "An item is valid exactly when it has a key, a value and a non-negative expiration, and is expired exactly when it has a positive expiration and more than that has elapsed since its last access; touching it updates the access time and count, and its size estimate is the length of a string, byte slice or binary marshaling, what a sizing value reports, and otherwise the same every time for the same value.",
  ["inputs"], "all durations, access times and keys within bounds",
  "Tests use a few durations and wall-clock sleeps.",
  ["pkg/cache/v2/item.go"], [("Valid / Expired / Touch", "pkg/cache/v2/item.go")], ["Item methods"])

# ---------------------------------------------------------------- backend (local)
P("B01", "List results are exactly the stored items, filtered then ordered",
  "Listing the in-memory backend returns each stored item exactly once, keeps those a filter predicate accepts, and orders them by the requested field ascending or descending, for any composition of the filters; an unknown sort field is an error.",
  ["inputs", "histories"], "all stored items with arbitrary fields, filter compositions within bounds",
  "Tests sort a few items by key.",
  ["pkg/backend/inmemory.go", "pkg/backend/filters.go"], [("InMemory.List / filters", "pkg/backend")], ["InMemory.List"])
P("B02", "The in-memory backend behaves as a map that is never silently shared",
  "The in-memory backend returns for a key exactly the last stored item until it is removed or cleared, refuses invalid items leaving the map unchanged, reports how many items it holds, and a retrieved item is not altered by later writes to the same key; a removal or clear takes no effect after it has returned.",
  ["histories", "inputs"], "all operation sequences over a small key set within bounds",
  "Tests use set-then-get pairs.",
  ["pkg/backend/inmemory.go"], [("InMemory Get/Set/Remove/Clear", "pkg/backend/inmemory.go")], ["InMemory methods"])

# ---------------------------------------------------------------- root cache
P("H01", "A get returns the last unexpired set, and never an expired value",
  "For every sequence of calls on an in-memory cache that stays within its capacity and size limit, every kind of get (single, with info, batch, get-or-set) returns the value most recently set for the key, get-or-set stores its value only when the key is absent and otherwise reports the present value or that the key has expired, nil values are refused, removal and clear make keys absent, and no get returns a value for which longer than its expiration has passed since it was last set or read; a value set while expired items are being removed is kept.",
  ["histories", "inputs"], "all operation sequences over a small key set, all durations and time advances within bounds",
  "Tests follow fixed sequences with sleeps.",
  ["hypercache_io.go", "hypercache_expiration.go"], [("Get/Set/GetOrSet/GetMultiple/Remove/Clear", "hypercache_io.go")], ["HyperCache methods"])
P("H02", "Memory accounting equals the size of the stored items",
  "On an in-memory cache, whenever no operation is in progress the reported allocation equals the sum of the sizes of the items stored and is not negative, after any sequence or concurrent mix of sets, refused sets, get-or-sets, overwrites, removals (of present, absent or repeated keys), expirations, evictions and clears; a set that would take the allocation, net of the value it replaces, beyond the configured maximum size is refused and leaves the cache unchanged, and no other valid set is refused.",
  ["histories", "configurations"], "all operation sequences over a small key set, sizes and limits within bounds",
  "Tests set each key once.",
  ["hypercache_io.go", "hypercache_eviction.go", "hypercache_expiration.go"], [("memory allocation accounting", "hypercache_io.go")], ["Allocation", "List"])
P("H03", "The cache respects its capacity and evicts by its algorithm",
  "On an in-memory cache with proactive eviction and a constant capacity, once sets are over the number of stored items does not exceed the capacity, items are removed only beyond the capacity and only those the configured eviction algorithm chooses from the history of sets and removals (reads do not inform it); an eviction cycle (triggered, or run by lowering the capacity) removes at most the configured maximum number of items, those the algorithm chooses, and stops at the capacity.",
  ["histories", "configurations"], "all operation sequences, capacities and eviction limits within bounds",
  "Tests fill a cache once with distinct keys.",
  ["hypercache_eviction.go", "hypercache_io.go"], [("evictionLoop / evictItem", "hypercache_eviction.go")], ["Count", "List"])
P("H04", "The worker pool runs every accepted job once and always shuts down",
  "Every job whose enqueueing finished before a shutdown began runs exactly once and every other job at most once; shutdown waits for the jobs that run and terminates, after which nothing runs, later jobs are dropped and no worker is left, for any interleaving of enqueues, resizes (to any size including none) and shutdown, whatever jobs return and whether or not errors are received; as many job errors as the pool was made with workers are kept for the receiver; concurrent resizes leave as many workers as one of them asked for.",
  ["schedules"], "all interleavings of enqueue, resize and shutdown within bounds",
  "Tests drain errors and never resize concurrently.",
  ["pool.go"], [("WorkerPool", "pool.go")], ["WorkerPool methods"])

# ---------------------------------------------------------------- distributed backend
P("D01", "Versions order writes totally and consistently on every node",
  "Replicated writes of a key are ordered by version and, between equal versions, by origin (the smaller wins), in the same way by every node and on every path: a node that has received several writes by replication, hand-over, read repair or anti-entropy (which compares versions only) holds the newest of them whatever order they came in, also when they arrive at the same time. A quorum or full read returns the newest of the copies it needed and leaves that copy or a newer one on every owner (with batched repairs: once the batch interval has passed); a repair never replaces a newer copy. Clients that write one key at the same time through any nodes leave the same write on every owner.",
  ["inputs", "histories", "schedules"], "all version/origin pairs, paths and delivery orders of a few writes, owners and schedules within bounds",
  "Tests deliver updates in one order.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go"], [("applySet / chooseNewer / repairReplicas", "pkg/backend/dist_memory.go"), ("isHigherVersion", "pkg/backend/dist_read_repair.go")], ["replica contents"])
P("D02", "Acknowledged quorum writes are read back",
  "A distributed write reaches every owner that can be reached, through whichever node the client talks to and also when the primary is unreachable and the client's node is another owner; it returns no error when at least as many owners as its level needs (one; a majority; all) acknowledged it, the quorum error when fewer did, and an error without changing anything when it could reach no owner to coordinate it. A read at its level succeeds exactly when enough owners that hold the key answer, and when the two levels overlap (quorum and quorum, or all on either side) it returns the acknowledged write and nothing older, provided the primary took the write or every owner held the same write before it.",
  ["inputs", "fault_sequences", "configurations"], "all levels, versions held, sets of unreachable owners, writers and readers for three owners",
  "Tests use a few fixed faults and levels.",
  ["pkg/backend/dist_memory.go"], [("setImpl / replicateTo / requiredAcks / getWithConsistency", "pkg/backend/dist_memory.go")], ["Set/Get results", "replica contents"])
P("D03", "A delete is never undone by an older write",
  "Once a node has applied a delete, nothing that carries a version up to the one it held when it deleted the key (a replicated write, a hand-over, a repair, anti-entropy), and nothing older that arrives at the same time as the delete, brings the key back while the deletion record is kept; a write with a version above the deletion's does, and a client's write after a delete is held by every owner and found. A client's delete through any node removes the key from every owner. Deletion records are dropped only once their configured lifetime has passed, then at the next sweeps, and never without a lifetime or a sweep.",
  ["histories", "schedules", "inputs"], "all orders of writes, deletes and syncs over all versions within bounds; all lifetimes",
  "Tests sync once after a delete.",
  ["pkg/backend/dist_memory.go"], [("applyRemove / applySet / fetchAndAdopt / compactTombstones", "pkg/backend/dist_memory.go")], ["replica contents", "tombstone metrics"])
P("D04", "Hinted writes are retained within limits and replayed or dropped",
  "A write that cannot reach a replica is queued for it within the configured limits (writes per node, where the oldest makes room; writes in total and bytes in total, where the new one is refused); the accounted bytes and the queued, replayed, expired and refused counts always equal what happened to the queue; at each replay every queued write whose lifetime is over is dropped, every other one is sent to its replica if the replica can be reached and kept otherwise. Nothing else is lost, and once every replica is back the queue is empty.",
  ["fault_sequences", "histories", "inputs"], "all sequences of writes, failures and replays, limits, lifetimes and sizes within bounds",
  "Tests fail one node once.",
  ["pkg/backend/dist_memory.go"], [("queueHint / replayHints / processHint", "pkg/backend/dist_memory.go")], ["metrics", "what each replica is sent"])
P("D05", "Key-pattern matching and listing are exact",
  "A key-listing pattern matches exactly the keys that its syntax denotes (empty: all; with *, ? or [: a glob by the rules of package path; otherwise: a prefix), an invalid glob is an error, and the merged listing of the nodes that answer contains each matching key once, sorted, cut off only at the requested limit and flagged as truncated exactly when a key was left out for it, and names the nodes that did not answer.",
  ["inputs", "fault_sequences"], "all patterns over the syntax characters up to a length; all distributions of keys over three nodes and limits within bounds",
  "Tests use a few patterns.",
  ["pkg/backend/dist_keys.go"], [("buildKeyMatcher / listKeysAccumulator", "pkg/backend/dist_keys.go")], ["ListKeys"])
P("D06", "Anti-entropy converges on the newer state of every key",
  "After a node synchronised with a peer, it holds for every key the newer of its own and the peer's state: a key that only the peer has is pulled, a newer write or deletion at the peer is adopted, an older one is not, and a key that the peer merely lacks is kept; the peer is not changed. Two nodes that synchronised with each other hold the same keys.",
  ["inputs", "histories"], "all pairs of states (nothing, write, deletion) and versions of a few keys, all leaf sizes within bounds; SHA-256 taken as free of collisions",
  "Tests sync a handful of fixed states.",
  ["pkg/backend/dist_memory.go"], [("syncWithStatus / fetchAndAdopt / BuildMerkleTree / DiffLeafRanges", "pkg/backend/dist_memory.go")], ["SyncWith", "replica contents"])
P("D07", "Without faults a cluster behaves as a map through every node",
  "While every node is reachable, a key is found through any node exactly when it was last written and not deleted, with the value last written, at every consistency level; what a caller does to an item it read changes nothing stored; each node lists and counts exactly the keys it owns. A clear empties the node it is called on and no other; a canceled clear is an error and clears nothing, then or later. A draining node refuses writes and deletes with the draining error and still answers reads, and an invalid item is refused without effect.",
  ["inputs", "histories"], "all operation sequences, values, nodes and levels within bounds",
  "Tests write through one or two nodes.",
  ["pkg/backend/dist_memory.go"], [("Set / Get / Remove / List / Count / Clear / Drain", "pkg/backend/dist_memory.go")], ["the backend interface"])

P("D08", "Gossip spreads the highest incarnation and a live node clears its name",
  "Of all claims about another member a node hears, also at the same time, it holds the one with the highest incarnation, the first of equals, with that claim's state and address; a member it did not know becomes known, and exactly the members not held dead own keys. A node that hears itself called suspect or dead at its own incarnation or above moves, alive, above the incarnation of that claim, so that every peer holding the claim holds it alive once it hears from it; stale claims, and claims that it is alive, change nothing about itself. Each round a node with other members tells one of them everything it holds, itself included.",
  ["inputs", "histories", "schedules"], "all claims, incarnations and states, all targets, all schedules of two claims arriving together, within bounds",
  "Tests send one suspect claim to one node.",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go", "internal/cluster/membership.go"], [("acceptGossip / refuteIfSuspected / runGossipTick", "pkg/backend/dist_memory.go"), ("Upsert / Refute", "internal/cluster/membership.go")], ["the transport's Gossip", "the gossip rounds"])
P("D09", "Failure detection holds exactly the reachable members alive",
  "With heartbeats on, each round a node probes every other member it has (at most the configured sample of them, if one is set). A member that answers, directly or through one of up to k relays where indirect probes are on, is held alive; one held alive that does not is held suspect, and still owns keys; one that has neither answered nor come under suspicion for longer than dead-after (if set) is removed at the next round that looks at it, owns nothing and is not probed again, and no member is removed earlier. Relays are other members held alive, asked only when the member itself did not answer, until one reaches it. A member or relay that never answers does not hold up the round, a node never doubts itself, and a node that has stopped probes nobody.",
  ["inputs", "histories"], "all combinations of answers over the rounds, all thresholds, relays and samples, within bounds",
  "Tests stop one node and wait.",
  ["pkg/backend/dist_memory.go", "internal/cluster/membership.go"], [("runHeartbeatTick / evaluateLiveness / indirectProbeReachable", "pkg/backend/dist_memory.go")], ["the heartbeat rounds"])

P("D10", "Rebalancing hands every key over before letting it go",
  "With rebalancing on and a ring all members agree on, after each round: a key a node holds and no longer owns, or of which it was primary and another owner now is, is held by its new primary, as it was, if that can be reached; otherwise it is queued for it or, if it cannot be queued, stays for the next round. An owner keeps its copy; a node that no longer owns a key lets it go once handed over or queued, after the grace period (if set) since it last stopped owning it, and not before. The primary brings a key to every owner that became one, or became one again, since the last round, as many a round as the limit allows, and those not reached are queued or tried again. A write that comes while an older one is handed over stays until it is handed over too.",
  ["inputs", "histories", "faults"], "all histories of members joining, leaving and out of reach, with every limit, grace and version, within bounds",
  "Tests add or remove one node once.",
  ["pkg/backend/dist_memory.go"], [("runRebalanceTick / migrateIfNeeded / replDiffShard / shedShard", "pkg/backend/dist_memory.go")], ["the rebalance rounds"])

P("W01", "Between nodes HTTP carries exactly what is sent",
  "Requests between nodes over HTTP have the effect and the result they have within the process: an item set on, or got from, another node keeps its key (any characters), value, version, origin and expiration; a removal, its record, and whether it is passed on to the other owners arrive; all keys matching a pattern are listed, over every shard; the Merkle tree keeps its root, leaves and chunk size; gossip keeps each member's state and incarnation; probes through another node report what it found; compressed bodies arrive as sent. What fails on the node fails at the caller, an unknown node and an unacknowledged write told apart from other errors. What one request stored is not changed by a later one. A draining node fails health checks, direct and relayed. A response over the configured limit is an error, never a shortened result.",
  ["histories", "inputs", "configurations"], "all short histories of requests with any versions and incarnations, on two nodes, within bounds",
  "Tests send a few hand-written requests to one server and look at a status or a value.",
  ["pkg/backend/dist_http_transport.go", "pkg/backend/dist_http_server.go", "pkg/backend/dist_http_types.go", "pkg/backend/dist_memory.go"], [("DistHTTPTransport", "pkg/backend/dist_http_transport.go"), ("distHTTPServer handlers", "pkg/backend/dist_http_server.go")], ["DistTransport methods over HTTP", "LocalContains"])
P("W02", "A node lets in exactly the requests that carry its credential",
  "When a node is configured with a token, or with a verifier that replaces the token check, every endpoint it serves to other nodes - set, get and remove in both spellings, health, drain, probe, gossip, Merkle tree and key listing - refuses a request without that exact credential with 401, changes nothing and tells nothing; with it the request is served. With nothing configured every request is served. A node that signs what it sends but has no way to check what it receives is not created unless anonymous inbound requests are explicitly allowed. The transport signs every request with its token, or with the signer that replaces it, and fails when signing fails.",
  ["inputs", "configurations"], "all credentials within bounds at every endpoint, for every kind of configuration",
  "Tests try one right and one wrong token on one or two endpoints.",
  ["pkg/backend/dist_http_server.go", "pkg/backend/dist_http_transport.go"], [("DistHTTPAuth.verify / wrapAuth", "pkg/backend/dist_http_server.go"), ("doTrusted", "pkg/backend/dist_http_transport.go")], ["status of a request", "node state", "NewDistMemory"])

P("R01", "The server's REST interface reads what was last written",
  "Whatever bytes are put under a key through the server's REST interface - singly, or in a batch as text or base64 - are what every reader (plain get, get as JSON, batch get) returns until the key is put again or deleted, with the same version, and with a time to live that counts down from the one given, if one was given. Every request means the same key, whatever characters it has (a path carries it escaped). A get, head and batch find exactly the keys held; otherwise they say not found. A listing's pages are the keys that match the pattern, in order, each once, with their number; one cut short says so. Each item of a batch succeeds or fails on its own. A request that makes no sense is refused with 400 and changes nothing; a draining node refuses writes with 503 and the code DRAINING. Where the cache behind the server has a capacity, what an eviction takes is a key as it was put: with LRU the keys put last stay.",
  ["histories", "inputs"], "all short histories of puts and deletes with any value bytes, on one node, within bounds",
  "Tests send one request per handler with a fixed key and value.",
  ["cmd/hypercache-server/main.go"], [("handlePut/Get/Head/Delete", "cmd/hypercache-server/main.go"), ("handleBatch*", "cmd/hypercache-server/main.go"), ("handleListKeys", "cmd/hypercache-server/main.go")], ["REST responses"])
P("R02", "Every REST route asks for its scope",
  "A route of the server's REST interface that reads answers only callers with the read scope, one that writes or deletes only callers with the write scope; without a configured credential the answer is 401, without the scope 403, and then nothing is changed and nothing told. Only the health check and the API description need no credential. A caller is told its own identity, scopes and capabilities as configured.",
  ["inputs", "configurations"], "all tokens within bounds and all sets of scopes at every route",
  "Tests try one token per scope on a few routes.",
  ["cmd/hypercache-server/main.go", "pkg/httpauth/policy.go"], [("registerClientRoutes", "cmd/hypercache-server/main.go")], ["status of a request", "cache contents"])

# ---------------------------------------------------------------- shared small parts
P("T01", "Serialization round-trips and is selected by name",
  "Decoding what the default (JSON) serializer encoded, whether it was given the value or a pointer to it, gives back an equal value: integers of every size, booleans, text, bytes, lists, maps with text keys, pointers and structs of these. What is not an encoding of the type asked for is refused with an error when decoding, what has no encoding when encoding; the disabled msgpack serializer refuses everything. Looking up a serializer succeeds exactly for the names registered and gives the one last registered under that name: \"default\" and \"msgpack\" from the start, none in an empty registry, and no registry's names appear in another. An empty name and an unknown name are the two distinct errors for them.",
  ["inputs", "histories"], "all values of the supported kinds, all names and registrations, within bounds",
  "Tests look up a few names and encode one value of each serializer.",
  ["internal/libs/serializer/serializer.go", "internal/libs/serializer/msgpack.go", "internal/libs/serializer/json.go"], [("Marshal/Unmarshal/registry", "internal/libs/serializer")], ["Marshal", "Unmarshal", "New", "Register"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
