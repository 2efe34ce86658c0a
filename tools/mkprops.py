#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off helper: the list is kept here because it is easier to edit)."""
import json, os
B = ["src/sync/cache.rs", "src/future/cache.rs"]
BC = ["src/sync/base_cache.rs", "src/future/base_cache.rs"]
VI = ["src/sync/value_initializer.rs", "src/future/value_initializer.rs"]
ES = ["src/sync/entry_selector.rs", "src/future/entry_selector.rs"]
EI = "src/common/concurrent/entry_info.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=obs or ["public API"], hook_needed=hook)))

p("C01", "A lookup returns the latest stored value or nothing, never a stale one",
  "For every key, a lookup returns the value of the most recent completed insertion, update or computation of that key, or nothing; it never returns a value that was replaced, removed, invalidated or stored under another key. Concurrent operations on one key behave as if executed one at a time, in an order consistent with their start and end times.",
  ["schedules", "histories", "inputs"], "All sequences and all interleavings of insert, get, remove, invalidate, get_with and compute operations on any keys by any number of threads or tasks.",
  "The tests run fixed single-threaded scripts and a few racing threads; they never compare concurrent histories with a sequential one.",
  B + BC + ["src/cht/segment.rs", "src/cht/map/bucket.rs"],
  [("insert_with_or_modify, remove_entry_if_and under the key lock", "src/sync/base_cache.rs do_insert_with_hash, src/cht/map/bucket_array_ref.rs"), ("get_with_hash", "src/sync/base_cache.rs")],
  [("hash table", "key to value entry", "src/cht/segment.rs")])
p("C02", "No live entry is lost without an expiry, removal or size-pressure cause",
  "An entry stays retrievable until it is removed or invalidated by an operation, expires by a configured policy, or is evicted because the cache would exceed its maximum capacity. In particular, a cache without limits never loses an entry, and one whose content fits its capacity never evicts or refuses one.",
  ["histories", "configurations", "inputs"], "All operation histories, time advances and maintenance points under every combination of capacity, weigher, eviction policy, expiration and invalidation settings.",
  "Tests assert presence in a few scripted scenarios; losing an entry needs particular combinations of pending operations, weights, expirations and maintenance runs.",
  BC + ["src/common/concurrent/deques.rs", "src/common/timer_wheel.rs"],
  [("handle_upsert, evict_lru_entries, evict_expired_entries", "src/sync/base_cache.rs"), ("advance", "src/common/timer_wheel.rs")])
p("C03", "After maintenance the weighted size is at most the maximum capacity",
  "When no operation is running and pending maintenance has been carried out, the total weight of the entries in a bounded cache is at most its maximum capacity, whatever the weigher returned, including updates which make a resident entry heavier, entries heavier than the whole cache (never retained) and a capacity of zero (nothing retained).",
  ["histories", "configurations", "inputs", "schedules"], "All histories of inserts and updates with any weights, capacities and policies, from one or many threads, followed by maintenance.",
  "Tests use a handful of capacities and weights with hand-computed expectations in single-threaded scripts.",
  BC, [("evict_lru_entries, handle_upsert, has_enough_capacity, admit", "src/sync/base_cache.rs"), ("weights_to_evict", "src/sync/base_cache.rs")],
  [("weighted_size", "sum of the weights of admitted entries", "src/sync/base_cache.rs EvictionState")])
p("C04", "entry_count and weighted_size are exact once maintenance has run",
  "When no operation is running and pending maintenance has been carried out, entry_count is the number of entries physically in the cache and weighted_size is the sum of the weights which the weigher gave for their current values; the two never drift, whatever mixture of inserts, updates, removals, evictions and expirations came before, from however many threads.",
  ["histories", "schedules", "inputs"], "All histories and all interleavings of operations by any number of threads, followed by maintenance.",
  "Tests check counters after short single-threaded scripts; drift accumulates only with particular interleavings of map update, operation recording and maintenance.",
  BC + [EI, "src/common/concurrent.rs"], [("saturating_add / saturating_sub in handle_admit, handle_remove, handle_upsert", "src/sync/base_cache.rs"), ("policy_weight", EI)],
  [("entry_count, weighted_size", "published counters", "src/sync/base_cache.rs")])
p("C05", "An entry is never returned at or after its time-to-live",
  "With a time-to-live configured, from that duration after the latest insertion or update of an entry on, no lookup, membership test, iteration, get_with or entry operation returns it, whether or not maintenance has removed it; before that moment the time-to-live never hides or removes it, and reads do not prolong it.",
  ["histories", "inputs", "configurations"], "All histories with arbitrary durations, time advances and maintenance points.",
  "Tests step a mocked clock through a few points of one scenario per cache type.",
  BC + ["src/common/time/instant.rs", "src/common/time/atomic_time.rs", "src/common/time/clock.rs"],
  [("is_expired_by_ttl, is_expired_entry_wo", "src/sync/base_cache.rs"), ("evict_expired_entries (remove_expired_wo)", "src/sync/base_cache.rs")])
p("C06", "Time-to-idle expires entries by last access, which only real reads renew",
  "With a time-to-idle configured, from that duration after the latest insertion, update or successful get of an entry on, no operation returns it; before that moment the time-to-idle never hides or removes it; contains_key and iteration do not renew it while every successful get does.",
  ["histories", "inputs", "configurations"], "All histories of reads, writes, probes, time advances and maintenance points.",
  "Tests follow one scripted timeline; maintenance racing with renewals and mixed policies are not sampled.",
  BC + [EI, "src/common/time/atomic_time.rs"], [("is_expired_by_tti, set_last_accessed", "src/sync/base_cache.rs"), ("remove_expired_ao", "src/sync/base_cache.rs")])
p("C07", "Per-entry Expiry decides each lifetime; callbacks get the right arguments",
  "With a user Expiry, storing a value under an absent key consults expire_after_create, replacing one still present expire_after_update and each successful read expire_after_read, once each, with the right key, value, current time and remaining duration (none if the value present has expired but was not removed yet); the answered duration (None meaning no per-entry limit) takes effect from that moment, and the entry expires at the earliest of this, time-to-live and time-to-idle.",
  ["histories", "inputs", "configurations"], "All histories and all Expiry implementations (any duration at each callback), combined or not with time-to-live and time-to-idle.",
  "Tests use a scripted Expiry with one expected call list; combinations of answers, pending maintenance and expired-but-present entries are not sampled.",
  BC + ["src/policy.rs", EI, "src/common/timer_wheel.rs"], [("expire_after_create, expire_after_read_or_update", "src/sync/base_cache.rs"), ("Expiry", "src/policy.rs")])
p("C08", "Maintenance physically removes every expired entry and reports it",
  "Maintenance that runs after an entry has expired takes it out of the cache, releases its count and weight, drops its value and reports it as expired: at once for time-to-live, at once for time-to-idle unless an entry accessed later stands before it in the access order, and at the latest with the next step of the timer (about 1.1 s of finest resolution) for per-entry expirations; it does so for any duration, after any rescheduling and after idle periods of any length, and never removes an entry before its time.",
  ["histories", "inputs"], "All per-entry durations from nothing to centuries, all reschedulings by reads and updates, all patterns of idle time between maintenance runs.",
  "The timer wheel is unit-tested at selected durations; carrying over between levels, rescheduling and long gaps depend on exact positions of the clock in the wheels.",
  ["src/common/timer_wheel.rs"] + BC, [("advance, schedule, bucket_indices, TimerEventsIter", "src/common/timer_wheel.rs"), ("evict_expired_entries_using_timers", "src/sync/base_cache.rs")],
  [("wheels", "five levels of buckets of timer nodes", "src/common/timer_wheel.rs")])
p("C09", "invalidate_all hides every earlier entry at once and no later one",
  "As soon as invalidate_all returns, no entry stored before the call is returned by any operation, and the next maintenance physically removes each of them; entries stored after it returned are unaffected, whatever is still pending and however often the call is repeated.",
  ["histories", "schedules", "inputs"], "All histories and interleavings of inserts, updates, reads, time advances, repeated calls and maintenance.",
  "Tests call it once or twice with a couple of keys and immediate maintenance.",
  BC + B, [("invalidate_all, set_valid_after, is_invalid_entry", "src/sync/base_cache.rs"), ("remove_expired_wo / ao", "src/sync/base_cache.rs")],
  [("valid_after", "time of the last invalidate_all", "src/sync/base_cache.rs")])
p("C10", "invalidate_entries_if hides exactly the matching earlier entries",
  "From the return of invalidate_entries_if on, exactly those entries which satisfy the predicate and were stored before the call are never returned again and are removed by maintenance; other entries and matching entries stored later remain. Several predicates may be active together; a cache built without support refuses with an error.",
  ["histories", "inputs", "schedules"], "All sets of predicates, all histories around their registration, and any number of entries relative to the scan batch.",
  "Tests register two predicates over four keys; scan batching, overlapping predicates and re-insertion are not sampled.",
  ["src/sync/invalidator.rs", "src/future/invalidator.rs"] + BC, [("register_predicate, apply_predicates, scan_and_invalidate", "src/sync/invalidator.rs"), ("invalidate_entries", "src/sync/base_cache.rs")],
  [("predicates", "registered and not yet fully scanned predicates", "src/sync/invalidator.rs")])
p("C11", "Every stored value that leaves the cache is notified exactly once",
  "With an eviction listener, each value that was stored is notified at most once, and exactly once as soon as it has been replaced, removed, invalidated, expired and reclaimed, evicted or refused admission; a value still in the cache has not been notified, and the notification carries that very key and value.",
  ["histories", "schedules", "configurations"], "All histories and interleavings under every configuration with a listener (which does not panic).",
  "Tests compare a short expected list; lost or duplicated notifications need overlaps of user removals, maintenance evictions and refused admissions.",
  B + BC + ["src/notification/notifier.rs", "src/future/notifier.rs"], [("notify_upsert, notify_invalidate, notify_single_removal, EvictionState::notify_entry_removal", "src/sync/base_cache.rs")])
p("C12", "Removal causes are truthful",
  "The cause passed to the listener tells why the value left: Replaced only for an update of a live value, Explicit only for a removal or invalidation requested by the user, Expired only when an expiration time had passed, Size only when maintenance evicted or refused the entry for capacity in a bounded cache.",
  ["histories", "configurations", "inputs"], "All histories combining updates, removals, invalidation, expiration and capacity pressure.",
  "Tests check one cause per scenario, rarely with two reasons present together.",
  ["src/notification.rs"] + BC, [("notify_upsert, notify_invalidate", "src/sync/base_cache.rs"), ("RemovalCause", "src/notification.rs")])
p("C13", "Notifications for one key arrive in the order of that key's changes",
  "For any one key, listener calls happen one at a time and in the order in which the values were stored and left the cache, and the notification of an update or removal by the user has been delivered when the operation returns (or is completed by later activity when a future is dropped).",
  ["schedules", "histories"], "All interleavings of operations of several threads on one key with evictions by maintenance.",
  "One test orders two threads with sleeps; other overlaps, in particular with evictions and expirations, are not exercised.",
  ["src/sync/key_lock.rs", "src/future/key_lock.rs"] + BC + B, [("KeyLockMap", "src/sync/key_lock.rs"), ("notify under key lock", "src/sync/base_cache.rs")])
p("C14", "A panicking listener is switched off and harms nothing else",
  "If the eviction listener panics, the operation that triggered it still completes with its normal result, the listener is never called again, and all later operations, maintenance and counters behave as in a cache without listener.",
  ["fault_sequences", "histories"], "A panic at any listener call, triggered from any operation or maintenance step.",
  "One test per cache type panics in one call of one scenario.",
  ["src/notification/notifier.rs", "src/future/notifier.rs"], [("catch_unwind and is_enabled", "src/notification/notifier.rs")])
p("C15", "Concurrent get_with calls on a missing key run one init and share its value",
  "While an init closure or future for a key is running, further get_with-family calls of the same kind on that key do not run theirs but wait and return the value it produced; no two init evaluations of a kind for a key overlap, and when a value is already present no init is run.",
  ["schedules", "histories"], "All interleavings of any number of callers of the get_with family and entry API, with inserts, removals and evictions in between.",
  "Tests stagger threads with sleeps in one order.",
  VI + B, [("try_init_or_read, waiters map", "src/sync/value_initializer.rs")], [("waiters", "in-flight initialisations per key and type", "src/sync/value_initializer.rs")])
p("C16", "A failed, empty or panicked init stores nothing and releases the waiters",
  "If an init closure returns an error or None, nothing is stored and each waiting caller of that evaluation receives the same error or None; if it panics or its future is dropped, nothing is stored and one of the waiting callers runs its own init, so that no waiter is stuck and later calls start afresh.",
  ["fault_sequences", "schedules"], "All assignments of outcomes (value, error, None, panic, cancellation) to the callers and all interleavings.",
  "Tests try one fixed arrangement of threads per outcome.",
  VI, [("WaiterGuard, panic handling, remove_waiter", "src/sync/value_initializer.rs"), ("EnclosingFuture / WaiterGuard::drop", "src/future/value_initializer.rs")])
p("C17", "compute and upsert closures are atomic per key",
  "and_compute_with, and_try_compute_with and and_upsert_with on one key run one at a time, each closure sees the entry left by the preceding one (also across and despite panics, errors and cancellations), and the resulting put, removal or no-op is applied exactly once, so that no concurrent read-modify-write is lost.",
  ["schedules", "fault_sequences", "inputs"], "All interleavings of compute calls from any number of threads or tasks, with closures that succeed, fail, panic or are dropped.",
  "Tests run a few counters concurrently with sleeps; failing and cancelled closures in the middle of others are not interleaved.",
  VI + ES, [("try_compute, try_compute_if_nobody_else", "src/sync/value_initializer.rs")])
p("C18", "Entry and CompResult report what really happened",
  "The returned Entry or CompResult carries the requested key, the value actually stored or removed, is_fresh true exactly if this call stored the value, is_old_value_replaced true exactly if it replaced one, and the variant (Inserted, ReplacedWith, Removed, Unchanged, StillNone) that describes the actual change; owned-key and by-reference forms agree.",
  ["inputs", "histories"], "Every entry-API and get_with-family operation, owned or by reference, in every state of the entry (absent, live, expired, invalidated).",
  "Tests cover selected operations on absent or live keys only, and by-reference forms partly.",
  ES + ["src/common/entry.rs", "src/ops.rs"] + VI, [("Entry, CompResult", "src/common/entry.rs"), ("insert_and_get etc.", "src/sync/value_initializer.rs")])
p("C19", "The LRU policy evicts exactly the least recently used entries",
  "Under the LRU policy a new entry is always admitted (unless heavier than the whole cache) and the entries evicted to make room are those whose last recorded read or write is oldest, in that order and no more of them than needed.",
  ["histories", "inputs"], "All histories of reads, writes and maintenance with any weights.",
  "Tests check one script of five keys.",
  BC + ["src/common/deque.rs", "src/common/concurrent/deques.rs"], [("evict_lru_entries", "src/sync/base_cache.rs"), ("move_to_back_ao", "src/common/concurrent/deques.rs")],
  [("access_order", "deque of entries by recency", "src/common/concurrent/deques.rs")])
p("C20", "TinyLFU admits a candidate only over less popular victims",
  "Under the default policy a new entry that does not fit is admitted exactly when its estimated popularity is greater than the sum of those of the least recently used entries it would displace, otherwise it is refused and the residents stay; hits and misses both count, halving of the counts keeps their order, and a one-shot scan cannot displace popular entries.",
  ["histories", "inputs"], "All histories of hits, misses and inserts with any weights and popularity.",
  "Tests check a script of a few keys with hand-picked frequencies.",
  BC + ["src/common/frequency_sketch.rs"], [("admit", "src/sync/base_cache.rs"), ("increment, frequency, reset", "src/common/frequency_sketch.rs")],
  [("frequency_sketch", "4-bit counters", "src/common/frequency_sketch.rs")])
p("C21", "Iteration yields live entries, each at most once, and misses none",
  "An iterator yields only keys with a live value that was stored under that key and each key at most once; every entry that is live and unchanged during the whole iteration is yielded, also while other entries are inserted, removed or the table is growing, and iterating never blocks other operations nor counts as a read.",
  ["histories", "schedules", "inputs"], "All cache contents, segment counts and all modifications interleaved between two steps of an iterator.",
  "Tests iterate over small quiescent caches or one concurrent scenario.",
  ["src/common/iter.rs", "src/cht/iter.rs"] + B + ["src/cht/map/bucket.rs"], [("Iter, ScanningGet", "src/common/iter.rs"), ("keys, get_key_value_and_then", "src/cht/segment.rs")])
p("C22", "A segmented cache behaves like independent caches over a key partition",
  "SegmentedCache assigns every key to one segment for good, and each operation (including reads by reference, entry API, invalidate_all, invalidate_entries_if, iteration and maintenance) has the effect it would have on plain caches over that partition, with counters summed over all segments and the capacity split among them.",
  ["inputs", "histories", "configurations"], "All numbers of segments, keys, capacities and operation histories.",
  "Tests repeat the plain cache scripts on one or two segment counts.",
  ["src/sync/segment.rs"], [("select, segment_index_from_hash", "src/sync/segment.rs Inner"), ("iterate over segments", "src/sync/segment.rs")])
p("C23", "Builder settings take effect as given and are reported unchanged",
  "Every setting given to a builder (capacity, initial capacity, weigher, eviction policy, listener, time-to-live, time-to-idle, Expiry, hasher, name, closure invalidation, segments), in any combination and order, takes effect in the built cache, is reported unchanged by policy() and name(), and out-of-range durations are refused at build time.",
  ["configurations"], "All combinations of builder settings for the three cache types.",
  "Tests build a few configurations and read back part of the policy.",
  ["src/sync/builder.rs", "src/future/builder.rs", "src/policy.rs", "src/common/builder_utils.rs"], [("build, build_with_hasher", "src/sync/builder.rs"), ("Policy", "src/policy.rs")])
p("C24", "Dropping a future at any await point leaves the cache consistent",
  "Dropping the future of any operation before it completes, at any suspension point, leaves the operation either without effect or fully applied: once other activity has run, lookups, counters, notifications and pending initialisations are as if it had never started or had completed, and nothing stays locked.",
  ["fault_sequences", "schedules", "crash_points"], "All operations of the asynchronous cache, dropped after any number of polls, interleaved with other tasks.",
  "Tests drop a few hand-written futures at hand-chosen points.",
  ["src/future/cache.rs", "src/future/base_cache.rs", "src/future.rs", "src/future/value_initializer.rs", "src/future/invalidator.rs"], [("CancelGuard, InterruptedOp, retry_interrupted_ops", "src/future.rs, src/future/base_cache.rs"), ("WaiterGuard", "src/future/value_initializer.rs")])
p("C25", "Operations always make progress, even under backlog",
  "Every operation returns: writers which meet a full backlog wait only until maintenance has drained it and then proceed, maintenance always makes progress and ends, no lock order or lost wake-up blocks callers for ever, and no recorded write is lost.",
  ["schedules", "histories"], "Any number of threads or tasks with any operations, bursts longer than the internal queues, including listeners that call back into the cache.",
  "Stress tests run a fixed load; a lost wake-up or lock-order problem shows only in rare schedules.",
  B + BC + ["src/common/concurrent/housekeeper.rs", "src/future/housekeeper.rs", "src/sync/key_lock.rs"], [("schedule_write_op, apply_reads_writes_if_needed, Housekeeper::try_run_pending_tasks", "src/sync/cache.rs")])
p("C26", "Each key and value is freed exactly once, when nothing refers to it",
  "Every stored key and value is dropped exactly once: after it has left the cache and maintenance has run, or at the latest when the last handle of the cache is gone; never while it is still retrievable or held by a caller, and never twice, whatever operations, evictions, growth or cancellations happened.",
  ["histories", "schedules"], "All histories and interleavings ending in dropping the cache at any moment, also with pending operations.",
  "Two tests count drops in simple scenarios.",
  ["src/common/concurrent/arc.rs", "src/common/deque.rs", "src/common/timer_wheel.rs", "src/cht/map/bucket.rs"] + BC, [("MiniArc", "src/common/concurrent/arc.rs"), ("defer_acquire_destroy, Inner::drop", "src/cht/map/bucket.rs, src/sync/base_cache.rs")])
p("C27", "Long histories do not wear the cache out",
  "All other guarantees hold after any number of operations on one entry or on the cache: no internal counter, generation number, popularity count or clock reading saturates, wraps or drifts so that entries become unevictable, unexpirable, invisible or miscounted.",
  ["histories", "inputs"], "Histories with arbitrarily many updates of one entry, arbitrarily many hits, and clocks far from the cache's creation.",
  "Tests perform at most some thousands of operations per key.",
  [EI, "src/common/frequency_sketch.rs", "src/common/time/clock.rs"] + BC, [("entry_gen, policy_gen, set_policy_gen", EI), ("reset, ensure_capacity", "src/common/frequency_sketch.rs")])
p("C28", "The hash table keeps every key through collisions, removals and growth",
  "Lookups, insertions, updates and removals of any set of keys, with any hash values (including all equal), act on exactly the key given, through any number of table growths, reused deleted slots and concurrent writers.",
  ["inputs", "histories", "schedules"], "All key sets, hash functions, and interleavings of operations with growth.",
  "Tests of the table use mostly distinct well-distributed integer keys.",
  ["src/cht/segment.rs", "src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs"], [("insert_with_or_modify, rehash, Probe, tombstones", "src/cht/map/bucket.rs")])
p("C29", "Probing operations leave no trace",
  "contains_key, iteration, policy, name, entry_count and weighted_size change nothing: they do not renew idle time, call the Expiry, count for popularity or recency, start maintenance or removals, nor run any user closure.",
  ["histories", "inputs"], "All histories with probes inserted at any point compared with the history without them.",
  "Tests check contains_key against one idle timeline.",
  B + BC + ["src/common/iter.rs"], [("contains_key_with_hash, ScanningGet", "src/sync/base_cache.rs")])
p("C30", "Maintenance happens by itself in the course of normal operations",
  "Without explicit maintenance calls, operations themselves run it whenever 64 reads or writes are pending or about 300 ms have passed since the last run, so that content beyond the capacity, expired content and pending notifications stay bounded by a constant backlog rather than growing with the history.",
  ["histories", "schedules"], "All histories of reads and writes with any spacing in time that never call run_pending_tasks.",
  "Tests call run_pending_tasks explicitly nearly everywhere.",
  ["src/common/concurrent/housekeeper.rs", "src/future/housekeeper.rs", "src/common/concurrent/constants.rs"] + B, [("should_apply_reads, should_apply_writes, try_run_pending_tasks", "src/common/concurrent/housekeeper.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
