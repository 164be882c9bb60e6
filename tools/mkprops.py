#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one block each)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
      "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or ["public API"], "hook_needed": None}})

# ---------------------------------------------------------------- chans
p("C01", "Chunking channel delivers every item exactly once, in order",
  "Concatenating the chunks a chunking channel delivers gives exactly the items that were put in, each once and in arrival order, whether a chunk left because it was full or because the chunk timeout passed. A chunk that was handed to the consumer (or to the chunk function) is never modified afterwards.",
  "inputs schedules configurations", "all item values, chunk sizes, buffer sizes, arrival times relative to the timeout, and interleavings of producer, chunker and consumer",
  "The tests send one fixed sequence in one timing and only log the chunks; loss or duplication needs a timeout to coincide with an arrival or a particular size.",
  "chans/chunk_chan.go", [("chunker loop", "chans/chunk_chan.go run"), ("builder", "chans/chunk_chan.go Build")])
p("C02", "Chunks are never empty, never oversized, and flushed on time",
  "Every delivered chunk has at least one item and at most the configured chunk size; a chunk leaves as soon as it reaches that size, without waiting for the timeout. While the consumer keeps up, no item waits in an incomplete chunk longer than the configured chunk timeout.",
  "inputs schedules configurations", "all chunk sizes and timeouts, all arrival times and interleavings",
  "Tests use size 5 and never assert a chunk length or a delay.",
  "chans/chunk_chan.go", [("size and ticker branches", "chans/chunk_chan.go run")])
p("C03", "Sharding channel routes every item to exactly one valid shard, in order",
  "Every item put into a sharding channel comes out exactly once, on the shard that is the shard function's result reduced modulo the shard count to the range 0..count-1, whatever int the shard function returns (including negative values); items with the same shard-function result stay on one shard and keep their order. With a worker function, worker i receives exactly the items of shard i.",
  "inputs schedules configurations", "all shard-function results over int, shard counts, item sequences and interleavings",
  "The test file for this type is empty; other tests only use small non-negative keys.",
  "chans/shard_chan.go", [("routing goroutine", "chans/shard_chan.go Build"), ("per-shard accessor", "chans/shard_chan.go C")])
p("C04", "Shard-and-chunk channel shards, then chunks, without loss or mixing",
  "For the combined shard-and-chunk channel, each item comes out exactly once, in a chunk of the shard its shard-function result selects, in arrival order within that shard; chunks are non-empty and not larger than the chunk size. The shard worker is called with the index of the shard the batch belongs to.",
  "inputs schedules configurations", "all shard-function results, chunk sizes, buffer sizes and interleavings",
  "The only test logs what the worker receives and asserts nothing about it.",
  "chans/shard_chunk_chan.go chans/shard_chan.go chans/chunk_chan.go", [("pipeline wiring", "chans/shard_chunk_chan.go Build")])
p("C05", "Cancelling the context stops channel pipelines and unblocks sharded Add",
  "After the configured context is cancelled, adding to a sharding channel returns the context's error instead of blocking forever; an Add after or during the cancellation never blocks (it returns nil only if the item still fitted into the buffer), and every goroutine the chunking, sharding and shard-and-chunk channels started terminates, even if nobody reads the outgoing channels any more or their buffers are full.",
  "schedules crash_points configurations", "every point at which the cancellation can arrive, all buffer fill levels and interleavings",
  "Tests cancel at the end and never check what is left running.",
  "chans/chunk_chan.go chans/shard_chan.go chans/shard_chunk_chan.go", [("context branches", "select loops in all three files")])
# ---------------------------------------------------------------- workers
p("W01", "Runner executes every submitted function exactly once",
  "Every function submitted to a runner whose context stays alive is executed exactly once, the context variant receives the runner's context, and functions submitted while all workers are busy run later rather than being dropped.",
  "schedules inputs configurations", "all interleavings of submitters and workers, worker counts, mixes of both submit variants",
  "One test runs ten identical functions in one schedule.",
  "workers/runner.go", [("worker loop", "workers/runner.go Build"), ("submit", "workers/runner.go Run, RunWithContext")])
p("W02", "Runner parallelism equals the worker count and ends with the context",
  "A runner built with n workers never executes more than n submitted functions at the same time, and does let n of them run at the same time. After its context is cancelled every worker goroutine terminates once the current function and those already queued have returned.",
  "schedules configurations crash_points", "all interleavings, worker counts, and cancellation points",
  "Tests never observe concurrency or termination.",
  "workers/runner.go", [("worker loop", "workers/runner.go Build")])
# ---------------------------------------------------------------- maps
p("M01", "Simple map is a linearizable map",
  "Each operation of the simple map (get, set, delete, has, size, set-if-absent and its function variant) behaves as one atomic step of an ordinary map, for any interleaving of concurrent callers. The function variant calls its function only when the key is absent, and exactly one of several concurrent set-if-absent calls on an absent key wins.",
  "inputs histories schedules", "all keys, values, operation sequences and interleavings",
  "The type has no test at all.",
  "collections/map.go", [("reader/writer lock around a Go map", "collections/map.go")])
p("M02", "Sharded map is indistinguishable from one map",
  "For every shard function whose results lie within the shard count, the sharded map behaves, operation by operation, exactly like a single ordinary map, and its single-key operations do so under concurrent use as well; size counts all keys and clear removes all of them, whatever the shard count and the distribution of keys (concurrent changes may be seen by size and clear shard by shard).",
  "inputs histories schedules configurations", "all keys, values, in-range shard functions, shard counts, operation sequences and interleavings",
  "The type has no test at all.",
  "collections/shard_map.go", [("per-shard lock and map", "collections/shard_map.go")])
p("M03", "Two-key map keeps both key views consistent",
  "A value in the two-key map is found under its primary key, and under a secondary key exactly when that secondary key was last put together with a primary key that still holds it; replacing a primary key's secondary key retires the old one. Removing by either key removes that value and no other entry, and removing an unknown key changes nothing; the key listings agree with what lookups find.",
  "inputs histories", "all primary and secondary keys (including zero values), values and operation sequences",
  "The type has no test at all; inconsistencies need re-use or replacement of one key of a pair.",
  "collections/two_key_map.go", [("three maps updated together", "collections/two_key_map.go Put, Remove, RemoveByK2")])
p("L01", "Per-key mutex: exclusive per key, independent between keys",
  "While one goroutine holds the per-key mutex for a key, no other goroutine acquires it for the same key, including when the key is locked for the first time by several goroutines at once. Holding one key never blocks another key, and every waiter eventually acquires the key after it is unlocked.",
  "schedules inputs histories", "all keys and all interleavings of lockers and unlockers",
  "The type has no direct test; the first-use race has a tiny window.",
  "collections/lock_map.go", [("double-checked creation of the key's mutex", "collections/lock_map.go MapMutex.Lock")])
p("L02", "Per-key read/write mutex: readers share, a writer excludes",
  "For one key of the per-key read/write mutex, several readers can hold it together, while a writer holds it alone: no reader and no other writer is inside at the same time, also on the key's first use. Different keys never block each other, and a lock that is released can be acquired by whoever waits for it.",
  "schedules inputs histories", "all keys and all interleavings of readers and writers",
  "The type has no test at all.",
  "collections/lock_map.go", [("double-checked creation of the key's lock", "collections/lock_map.go MapRWMutex")])
# ---------------------------------------------------------------- sets
p("S01", "Plain set obeys set algebra",
  "The plain set contains exactly the values added (by constructor, single or bulk add) and not removed since; size, membership, has-all, has-any, equality and listing agree with that, equality holds exactly when both sets contain the same values, and a clone has the same values and shares no later change with its original.",
  "inputs histories", "all element values and operation sequences",
  "The one test depends on map order and was left out as flaky; it uses fixed values.",
  "collections/set.go", [("map-backed set", "collections/set.go")])
p("S02", "Hash set membership and atomic has-or-create",
  "Without a size limit the hash set contains exactly the keys added and not deleted or cleared since, and count and key listing agree with membership. Of any number of concurrent has-or-create calls for an absent key exactly one reports that the key was absent.",
  "inputs histories schedules", "all keys, operation sequences and interleavings",
  "The type has no test at all.",
  "collections/hash_set.go", [("double-checked insert", "collections/hash_set.go HasOrCreate"), ("locking", "collections/hash_set.go")])
p("S03", "Bounded hash set never exceeds its limit and evicts the oldest key",
  "A hash set built with a maximum count never holds more keys than that. When an insertion exceeds it, exactly the key that was inserted longest ago (and is still present) leaves; adding a key that is already present evicts nothing and does not corrupt later evictions.",
  "inputs histories configurations", "all limits, keys and operation sequences including re-adding and deleting",
  "The type has no test at all; the failure needs a repeated add before the limit is reached.",
  "collections/hash_set.go", [("insertion order list", "collections/hash_set.go Add, HasOrCreate, Delete")])
p("S04", "Unique-struct set detects duplicates by content",
  "Adding a value to the unique-struct set reports true exactly when no equal value is present, has reports exactly whether an equal value is present, and remove reports and undoes exactly that; count is the number of distinct values present. Equality is that of the exported content (of values without maps inside), or of the configured identity function when one is given; of concurrent adds of equal values exactly one reports true.",
  "inputs histories schedules configurations", "all contents, identity functions, operation sequences and interleavings (hashing idealised as collision-free)",
  "The type has no test at all.",
  "collections/struct_uniq_set.go", [("hash of the content", "collections/struct_uniq_set.go Add, Has, Remove")])
p("S05", "Unique-struct set keeps elements for their time-to-live and then drops them",
  "An element of the unique-struct set stays present for the full configured time-to-live from the moment an add of it last succeeded, and is gone at the latest one check interval after that. The background expiry never crashes the program, also while the set is empty, and an element that was removed and added again gets a full new lifetime.",
  "histories schedules configurations", "all element lifetimes, check intervals, add/remove times and interleavings with the expiry goroutine",
  "The type has no test at all; expiry depends on the clock.",
  "collections/struct_uniq_set.go", [("expiry goroutine", "collections/struct_uniq_set.go Build")])
# ---------------------------------------------------------------- guava
p("G01", "Cache returns the current value, loading it when absent",
  "Get on the cache map returns the value most recently stored for the key (by set, has-or-create, update or load) if it is present; otherwise the loader's result, which is then stored, or the loader's error, which is returned and not cached. Without a loader an absent key gives the zero value and no error; delete and clear make keys absent; has, size and the stored snapshot agree with get.",
  "inputs histories schedules", "all keys, values, loader results and errors, operation sequences and interleavings",
  "Tests cover single fixed sequences and string keys.",
  "collections/guava_map.go", [("Get/Set/Has/Delete/Clear", "collections/guava_map.go")])
p("G02", "Cache never exceeds its maximum count and evicts the oldest entry",
  "A cache map with a maximum count never holds more entries than that after any operation, whichever operation inserts. When an insertion needs room exactly the entry inserted longest ago leaves; overwriting, reading or deleting entries evicts nothing.",
  "inputs histories configurations", "all limits, keys and operation sequences, including deletes, overwrites and update-under-lock",
  "Tests check one insertion order through one insertion method.",
  "collections/guava_map.go", [("insertion order slice", "collections/guava_map.go Set, Get, HasOrCreate, LockForUpdate, safeDelete")])
p("G03", "Cache calls the unload function exactly once per removed entry",
  "Whenever an entry leaves the cache map by deletion, eviction, clear or timeout, the unload function is called exactly once with that key and the value that was stored; it is not called for keys that were not present, and never for entries still in the map.",
  "inputs histories schedules", "all keys, values, removal causes, operation sequences and interleavings with expiry",
  "Tests count unloads in a few fixed sequences; deleting an absent key with an unload function is not tested.",
  "collections/guava_map.go", [("safeDelete, Clear", "collections/guava_map.go")])
p("G04", "Cache entries expire exactly when their timeout says",
  "With a write timeout, or a read timeout, (one of the two configured) an entry stays readable until that much time has passed since the last write or (read timeout) the last read, and is gone after it; what a refresh at exactly the instant of expiry does is not specified. A timeout armed for an earlier entry of the same key never removes an entry stored later, whether the earlier one was deleted, evicted, cleared or replaced.",
  "histories schedules configurations", "all timeouts, all access times relative to them, operation sequences, interleavings of expiry with accesses",
  "Tests sleep for fixed times around one timeout; stale timers need delete or clear followed by a new entry inside the window.",
  "collections/guava_map.go", [("timer goroutine per entry", "collections/guava_map.go createHolder"), ("timer resets", "Get, Has, Set, HasOrCreate")])
p("G05", "With load locking, concurrent gets share one load per key",
  "With load locking enabled, concurrent gets of one absent key run the loader at most once at a time and, if it succeeds and the entry is kept, exactly once, and all of them return the loaded value; a get never returns or stores a zero value that nobody loaded. Loads of different keys do not wait for each other.",
  "schedules inputs", "all interleavings of concurrent gets, loader results, and keys",
  "The test for this is flaky because of a real race, and was left out.",
  "collections/guava_map.go collections/lock_map.go", [("load lock", "collections/guava_map.go Get")])
p("G06", "Update-under-lock is exclusive per key and stores its result",
  "Update functions passed to the cache map's update-under-lock for the same key never overlap in time, also while other goroutines delete or expire the key; its result is what is stored and returned. Reads of the map and updates of other keys are not blocked while an update function runs.",
  "schedules inputs histories", "all keys, values and interleavings of updates with other operations",
  "No test overlaps two updates with a delete.",
  "collections/guava_map.go", [("per-key update lock", "collections/guava_map.go LockForUpdate, safeDelete")])
# ---------------------------------------------------------------- request/response/wait/holder maps
p("R01", "Request map runs one load per key and shares its result",
  "Concurrent get-or-create calls for one absent key run the function once and all return its result (and error, in the error variant); while the result is cached later calls return it without running their function. Loads of different keys run independently, and initial entries are served without running the function.",
  "schedules inputs histories", "all keys, results, errors and interleavings of concurrent callers",
  "Tests use fixed sleeps to order callers.",
  "collections/request_map.go", [("waiter list", "collections/request_map.go GetOrCreate, GetOrCreateWithErr")])
p("R02", "Request map caches a result for its time-to-live, no less and not for ever",
  "A cached result stays available for the full time-to-live after its load finished and is dropped within a bounded time (the cleaning period of a tenth of a second) after that, after which the function runs again; each load starts a new full lifetime, independent of earlier loads of that key. Nothing is kept for expired keys.",
  "histories schedules configurations", "all time-to-live values, load times, repeated loads of the same key, and interleavings with the cleaner",
  "Tests never reload a key after expiry and wait for a second expiry.",
  "collections/request_map.go", [("cleaner goroutine", "collections/request_map.go rmWorker")])
p("R03", "Timeout wrapper returns the result in time or the timeout error",
  "A function wrapped with the request map's timeout returns the wrapped function's result and error if it finishes before the duration, and otherwise returns the zero value and the timeout error once the duration has passed, without waiting for the function. The wrapped function is called exactly once per call, with the given key, and its goroutine does not leak when it finishes late.",
  "inputs schedules", "all durations, completion times, results and keys",
  "One test with a fixed sleep.",
  "collections/request_map.go", [("Timeout", "collections/request_map.go Timeout")])
p("R04", "Wait map hands the first value set to every waiter",
  "Every wait on a key of the wait map returns the first value set for it, whether the set happens before, during or after the wait starts and however many goroutines wait; no waiter is lost or blocked forever, and while the value is held later sets of the key are ignored. Values never cross between keys.",
  "schedules inputs histories", "all keys, values, and interleavings of waiters and setters",
  "Tests use fixed sleeps to order waiter and setter.",
  "collections/wait_map.go", [("waiter channels", "collections/wait_map.go Wait, Set")])
p("R05", "Wait map releases waiters on timeout and on cancellation",
  "A wait whose key is not set returns the zero value when the request timeout has passed since the first waiter of that key, not before (the key then counts as answered with the zero value for the response time-to-live); when the configured context is cancelled all waiters return the zero value at once. After every waiter has returned and held values expired, the map holds nothing.",
  "schedules histories crash_points configurations", "all timeouts, wait start times, cancellation points and interleavings",
  "Tests cover one timing.",
  "collections/wait_map.go", [("timeout goroutine", "collections/wait_map.go Wait")])
p("R06", "Wait map holds a value for its time-to-live and then forgets it",
  "A value set in the wait map is returned to waits for the full response time-to-live and is forgotten after it, so that a later wait waits for a new set. A request timeout armed for an earlier wait on the same key never creates or replaces a value once that wait has been answered.",
  "histories schedules configurations", "all timeouts and time-to-live values in any order of size, wait and set times, interleavings",
  "Tests never use a time-to-live shorter than the request timeout together with a second round on the same key.",
  "collections/wait_map.go", [("TTL goroutine", "collections/wait_map.go Set"), ("timeout goroutine", "Wait")])
p("R07", "Response map hands the first value set to every waiter",
  "Every wait on a key of the response map returns the first value set for that key within its lifetime, whether it was set before or after the wait began and however many goroutines wait; later sets change nothing and never block or crash the caller. Values never cross between keys.",
  "schedules inputs histories", "all keys, values, numbers of concurrent setters and waiters, interleavings",
  "Tests order setters and waiters with sleeps; two sets racing before delivery are not tested.",
  "collections/response_map.go", [("holder goroutine", "collections/response_map.go newChansHolder, set, wait")])
p("R08", "Response map releases waiters on timeout and clears old keys safely",
  "A wait on a key of the response map that is not set returns the zero value once the response timeout of that key has passed (at once if it has already passed), or earlier when the key is cleared; no waiter is ever left blocked. Keys older than the clear timeout are dropped at the next cleaning, after which the key starts afresh; a set or wait racing with timeout or cleaning neither crashes nor hangs.",
  "schedules histories configurations", "all response and clear timeouts, operation times and interleavings with timeout and cleaning",
  "Tests cover one timing each; the races have tiny windows.",
  "collections/response_map.go", [("timer and cancel branches", "collections/response_map.go newChansHolder"), ("cleaner", "clear")])
p("R09", "Holder map releases every waiter with the outcome given",
  "All waits on one transaction of the holder map return when it is released (nil) or failed (that error), including waits that start concurrently with the release and waits that start after it while the element is held; get returns the object most recently given by the first wait or an update, with the outcome's error. Releasing, failing or updating an unknown transaction reports an error and changes nothing, and releasing twice never blocks.",
  "schedules inputs histories", "all keys, objects, errors and interleavings of waiters, updates, releases and errors",
  "The one test is timing-dependent and was left out as flaky.",
  "collections/holder_map.go", [("holder goroutine and waiter list", "collections/holder_map.go Wait, Release, Error")])
p("R10", "Holder map times out, honours cancellation, and drops settled elements",
  "A transaction of the holder map that is neither released nor failed makes all its waits return a timeout error when the timeout has passed since its first wait, not before; when the configured context is cancelled every wait returns an error rather than blocking. A settled element stays readable for the configured time-to-live and is removed after it, after which the transaction can be used afresh.",
  "schedules histories crash_points configurations", "all timeouts and time-to-live values, operation times, cancellation points, interleavings",
  "Tests check one timeout with fixed sleeps; cancellation is not tested.",
  "collections/holder_map.go", [("holder goroutine", "collections/holder_map.go Wait")])
p("T01", "Thread-safe collections are free of data races and deadlocks",
  "Concurrent use of the public operations of the collections documented as thread-safe (simple, sharded, two-key, cache, hash-set, unique-struct, request, wait, response, holder maps and per-key locks) causes no data race on their internal state, no crash and no deadlock, for any combination of operations and any interleaving.",
  "schedules histories", "all pairs of concurrently executed public operations, all interleavings, symbolic keys",
  "The tests are not run with the race detector, and it reports only races of executed schedules.",
  "collections/map.go collections/shard_map.go collections/two_key_map.go collections/guava_map.go collections/hash_set.go collections/struct_uniq_set.go collections/request_map.go collections/wait_map.go collections/response_map.go collections/holder_map.go collections/lock_map.go", [("mutexes of each type", "collections/*.go")])
p("T02", "Background work of a collection ends with its context or its entries",
  "After the context given to a collection is cancelled no goroutine the collection started is left: for the cache, the unique-struct set, the wait map and the request map at once (a caller's function that is still running excepted), for the response and the holder map at the latest when the running timeouts and times-to-live have passed. Without a cancellation, nothing beyond one background worker per collection is left once its entries have been answered, removed or have expired.",
  "schedules crash_points histories", "all cancellation points relative to two concurrent operations, all timeouts and times-to-live within the bound, all ways an entry leaves",
  "The tests never look at what is left running.",
  "collections/guava_map.go collections/struct_uniq_set.go collections/request_map.go collections/wait_map.go collections/response_map.go collections/holder_map.go", [("timer goroutines", "collections/guava_map.go createHolder; wait_map.go Wait, set; holder_map.go Wait"), ("workers", "collections/request_map.go rmWorker; response_map.go clear; struct_uniq_set.go Build")])
p("E01", "A panicking callback leaves the collection usable",
  "When a function the caller passed to a collection and that runs in the caller's goroutine panics (the function of set-if-absent of the simple and the sharded map, the loader and the update function of the cache, the identity function of the unique-struct set), the panic reaches the caller, nothing is stored by that call, and no lock stays held: every later or concurrent operation on that and on every other key works as if the call had not been made.",
  "fault_sequences schedules inputs", "all interleavings of a panicking call with another operation on the same or another key, all values",
  "No test has a callback that panics.",
  "collections/map.go collections/shard_map.go collections/guava_map.go collections/struct_uniq_set.go", [("deferred unlocks", "collections/map.go SetIfNotExistsWithFunc; shard_map.go SetIfNotExistsWithFunc; guava_map.go Get, LockForUpdate")])
p("E02", "Callbacks may use the object that calls them",
  "A function that is called by the cache map may use that cache: the loader any operation on another key and any but a locked load of its own, the update function any operation but an update of its own key, the unload function everything. The function of a request may request other keys; a chunk, worker or runner function may add items or submit functions to what calls it as long as the buffer has room. None of that deadlocks, and the outer call gives its own result.",
  "schedules programs inputs", "all operations within a callback, with another operation running concurrently, all interleavings",
  "No test has a callback that uses the object calling it.",
  "collections/guava_map.go collections/request_map.go chans/chunk_chan.go chans/shard_chan.go chans/shard_chunk_chan.go workers/runner.go", [("callbacks run outside the map's lock", "collections/guava_map.go Get, LockForUpdate, safeDelete; request_map.go GetOrCreate"), ("worker loops", "chans/*.go Build; workers/runner.go Build")])
p("B01", "Objects built from one builder are independent",
  "What a builder has built keeps the configuration the builder had at that moment: changing the builder afterwards, or building again, from the same or another goroutine, changes nothing about it and does not race with it. Two objects from one builder share only what the caller gave explicitly (contexts, functions, an incoming channel): items, entries, keys, waiters, limits, timeouts and workers are each one's own, and cancelling the context of one does not end the other.",
  "programs schedules inputs configurations", "two objects per builder, all values, the change of the builder before, after or concurrent with the use of the first object, all interleavings",
  "Every test builds one object per builder.",
  "chans/chunk_chan.go chans/shard_chan.go chans/shard_chunk_chan.go workers/runner.go flow/processor.go collections/guava_map.go collections/hash_set.go collections/struct_uniq_set.go collections/shard_map.go collections/wait_map.go collections/response_map.go collections/holder_map.go", [("Build methods", "chans/*.go, workers/runner.go, collections/*.go, flow/processor.go Build")])
# ---------------------------------------------------------------- pure code
p("D01", "Slice comparison partitions into deleted, created and kept",
  "Comparing a current and a modified slice by identifier returns as deleted exactly the current elements whose identifier is missing from the modified slice, as created exactly the modified elements whose identifier is missing from the current slice, and as modified exactly the current elements whose identifier occurs in both, each in input order and with duplicates preserved. The inputs are not changed.",
  "inputs", "all slices and identifiers, including duplicates and empty slices",
  "One fixed example, checked by lengths only.",
  "comparer/comparer.go", [("CompareSlice", "comparer/comparer.go")])
p("A01", "Minimum and maximum functions return the right argument",
  "Each minimum (maximum) function returns one of its two arguments and the result is not greater (not smaller) than either, for every pair of values of its integer or floating-point type (for floats: every pair without NaN).",
  "inputs", "all pairs of values of all twelve types at full width",
  "The functions have no test.",
  "math/minmax.go", [("Min*/Max*", "math/minmax.go")])
p("A02", "Decimal point shift multiplies or divides by the power of ten",
  "Shifting an integer by n decimal places gives value*10^n for positive n (modulo the word size), value divided by 10^-n and truncated towards zero for negative n, and the value itself for zero; shifting up and back down by the same amount returns the original whenever the upward shift did not overflow.",
  "inputs", "all int values and all shifts within the stated bound",
  "One value and two shifts are tested.",
  "math/decimal_int.go", [("IntPointMove", "math/decimal_int.go")])
p("N01", "Integer to little-endian bytes and back is lossless",
  "Writing an integer to n little-endian bytes and reading it back gives the integer modulo 2^(8n), for n up to the word size, and the fixed-width 16- and 32-bit helpers are exact inverses of each other and put the least significant byte first.",
  "inputs", "all integers, byte counts 0 to 8, all byte strings of those lengths",
  "The package has no tests.",
  "net/to_bytes.go", [("GetBytesFromInt and inverses", "net/to_bytes.go")])
p("N02", "Unsigned packing and unpacking are inverse in the chosen byte order",
  "Packing a uint8, uint16, uint32 or uint64 and unpacking into the same type with the same byte order returns the value; the packed form has exactly the type's width and the requested byte order. Unpacking into an unsupported target reports the unsupported-type error and packing an unsupported type panics rather than returning wrong data.",
  "inputs configurations", "all values of the four types, both byte orders",
  "The package has no tests.",
  "net/to_bytes.go", [("PackUint, UnpackUint", "net/to_bytes.go")])
p("N03", "Size prefix holds the payload length and keeps the payload",
  "Adding a 16- or 32-bit size prefix gives the little-endian payload length (modulo the prefix width) followed by exactly the payload bytes, and leaves the caller's payload unchanged and unshared.",
  "inputs", "all payload contents, lengths up to the bound",
  "The package has no tests.",
  "net/to_bytes.go", [("AddSize16, AddSize32", "net/to_bytes.go")])
p("N04", "Splitting into chunks loses nothing and respects the size",
  "Splitting a byte slice into chunks of a positive size gives chunks whose concatenation is the original slice, all of exactly that size except a last one that is non-empty and not larger; an empty slice gives no chunks. Copying the first bytes of a slice gives an independent slice with those bytes.",
  "inputs", "all contents, lengths up to the bound, all positive sizes",
  "The package has no tests.",
  "net/to_bytes.go", [("Chunk, CopyBytes", "net/to_bytes.go")])
p("N05", "Bit packing of boolean arrays is lossless",
  "Packing a boolean array into bytes and unpacking it with its original length gives the array back; packing uses ceil(n/8) bytes, least significant bit first, with unused bits zero, and unpacking then packing any byte string returns it. The all-true constructor returns the requested number of true values.",
  "inputs", "all boolean arrays and byte strings up to the bound",
  "The package has no tests.",
  "net/to_bytes.go", [("ByteToBoolArray, BoolArrayToByte, CreateAllTrueBoolArray", "net/to_bytes.go")])
p("N06", "Reading n bytes returns exactly the next n bytes or an error",
  "Reading n bytes from a connection returns exactly the next n bytes of the stream, consuming no more, however the stream is fragmented into reads; if the stream ends or fails first an error is returned instead of partial data. The timeout variant sets the read deadline to now plus the timeout before reading and reports a failure to set it without reading.",
  "inputs fault_sequences schedules", "all stream contents, fragmentations, failure positions and timeouts",
  "The package has no tests.",
  "net/read.go", [("ReadNBytes, ReadNBytesWithTimeout", "net/read.go")])
p("Z01", "Gzip then gunzip returns the original, and damage is reported",
  "Decompressing the compressed form of any byte string returns that byte string without error, and the compressed form is a complete gzip stream. Decompressing data that is truncated anywhere, does not start like a gzip stream, or whose checksum or size does not match returns an error.",
  "inputs fault_sequences", "all byte strings up to the bound, all truncation points (the gzip codec itself idealised)",
  "One text is round-tripped; no damaged input is tried.",
  "zip/gzip.go", [("GZipData, GUnzipData", "zip/gzip.go")])
p("K01", "AES decryption inverts encryption and rejects everything else",
  "Decrypting what was encrypted under the same valid key returns the original data; decrypting it under another key, or after any change, truncation or extension of the ciphertext, returns an error and no data. Inputs too short to be a ciphertext and keys of invalid length give an error, never a panic, and neither direction modifies its arguments.",
  "inputs fault_sequences", "all plaintexts, keys, and modifications up to the bound (AES-GCM itself idealised)",
  "The package has no tests.",
  "crypto/aes.go", [("Encrypt, Decrypt", "crypto/aes.go")])
p("K02", "Every encryption uses a fresh random nonce",
  "Each encryption draws a new full-length nonce from the system's secure random source and uses all of it, so two encryptions share a nonce only if the source repeats.",
  "inputs fault_sequences histories", "all random source outputs, sequences of up to three encryptions",
  "The package has no tests.",
  "crypto/aes.go", [("nonce generation", "crypto/aes.go Encrypt")])
p("K03", "MD5 helpers return the digest of the whole text",
  "The byte helper returns the 16-byte MD5 digest of exactly the given text and the string helper its 32-character lower-case hexadecimal form; equal texts give equal results.",
  "inputs", "all texts up to the bound, all digests (MD5 itself idealised)",
  "The package has no tests.",
  "crypto/hash.go", [("GetMD5Hash, GetMD5HashBytes", "crypto/hash.go")])
p("F01", "Encrypted file system gives back every file that was added",
  "Every file added (singly or with its folder) to the builder and saved can be opened by its path after loading with the same secret (or none, if none was used), with the same name, size and content; nothing else is present. Loading with a wrong secret, an archive that was truncated, or an archive with a secret that was changed in any way, returns an error and no file system; a builder that cannot write its archive reports it.",
  "inputs configurations fault_sequences", "all file contents and small directory trees up to the bound, with and without secret (gob and AES-GCM idealised)",
  "The tests that read contents use a path on the author's machine and fail; the passing test ignores the walk result.",
  "crypto_fs/crypto_fs.go crypto/aes.go", [("builder", "crypto_fs/crypto_fs.go AddFile, AddFolder, Save"), ("loader", "CryptoFSFromFile")])
p("F02", "Directory listing and lookup of the encrypted file system are consistent",
  "Listing a directory returns exactly the entries the real directory had, each of which can be opened under the joined path and has the right directory flag, name and size; listing a file or an unknown path, and opening an unknown path, return an error (not-exist for unknown paths). Adding a folder that does not exist does not crash and adds nothing.",
  "inputs configurations", "all small directory trees and paths up to the bound",
  "As for F01; the missing-folder case is not tested.",
  "crypto_fs/crypto_fs.go", [("ReadDir, Open", "crypto_fs/crypto_fs.go")])
p("F03", "Opened files read like files",
  "Reading an opened file to the end in any sequence of buffer sizes yields its content exactly once, followed by end-of-file, and two opens of the same path read independently.",
  "inputs histories", "all contents and read-size sequences up to the bound",
  "The one test reading content reads once with a buffer of exactly the file's size.",
  "crypto_fs/crypto_fs.go", [("Read", "crypto_fs/crypto_fs.go file.Read")])
p("P01", "Processor runs its routes in order and stops at the first failure",
  "A built processor runs the steps of its routes in the order they were declared, passing the given event and state to each; it stops at the first step that returns an error or condition that is false, returns that error (a non-nil error for a false condition), and runs nothing after it. If all pass it returns nil, and every call starts afresh.",
  "inputs programs histories", "all outcomes of conditions and steps, route shapes up to the bound, repeated calls",
  "The test file does not compile.",
  "flow/processor.go", [("Build, Route, RouteOn, On, OnEvent, Do", "flow/processor.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
