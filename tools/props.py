"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why, anchors=a))


SEC = "src/security/"
# ---- resource limits -------------------------------------------------------------------------
prop("P01", "Array-buffer memory accounting is exact",
     "Every array buffer that is handed out adds exactly its byte length to the isolate's external-memory usage, a refused allocation leaves the usage unchanged, and freeing a buffer subtracts exactly its byte length once.",
     ["histories", "inputs"], "every sequence of allocations, refusals and frees, of any sizes",
     "A drift needs a particular mix of refusals and frees; V8 cannot be run in these tests and the allocator's entry points are private callbacks.",
     [SEC + "array_buffer_allocator.rs"], [("allocate / allocate_uninitialized / free callbacks", SEC + "array_buffer_allocator.rs")],
     [("usage counter", "bytes of live array buffers", SEC + "array_buffer_allocator.rs")])
prop("P02", "No array buffer is granted beyond the memory limit",
     "An array-buffer allocation that would take the isolate's external memory over its limit yields no buffer and marks the memory limit as hit; a granted allocation stays within the limit, does not mark it, and zero-initialised requests get zeroed memory; every isolate that serves events is created with this allocator (where the engine's own sandbox does not replace it).",
     ["inputs", "histories"], "all allocation sizes and all prior usages, on both allocation entry points",
     "Tests cannot call the allocator callbacks here, and the two entry points can drift apart.",
     [SEC + "array_buffer_allocator.rs"], [("limit comparison before allocation, on both entry points", SEC + "array_buffer_allocator.rs")])
prop("P03", "Heap exhaustion stops the script instead of the host",
     "When an isolate approaches its heap limit, the memory-limit flag is set, the script is terminated, and the isolate gets extra headroom so that it can unwind; this protection is installed on every isolate that is created to serve events, before any context exists in it, and stays valid as long as the isolate.",
     ["programs", "configurations"], "every tenant script that exhausts the heap, on every way an isolate is created",
     "Reaching the heap limit needs a running V8, and a construction path without the callback works fine until a tenant exhausts memory.",
     [SEC + "heap_limit.rs", "src/locker_managed_isolate.rs", "src/runtime/mod.rs", "src/worker.rs"],
     [("near-heap-limit callback", SEC + "heap_limit.rs"), ("installation next to isolate creation", "src/locker_managed_isolate.rs")])
prop("P04", "The wall-clock guard terminates on expiry and only on expiry",
     "While a wall-clock guard with a non-zero limit is alive, expiry of the limit terminates the script and is reported as triggered; a zero limit disables the guard, and a guard that is dropped first never terminates the script afterwards, because dropping cancels the watchdog and waits for it.",
     ["schedules"], "all interleavings of expiry, drop and panic in the watchdog and the guarded code",
     "The tests sample a few sleeps; the races between drop and expiry need a particular schedule.",
     [SEC + "timeout_guard.rs"], [("watchdog thread waiting on the cancel channel with a timeout", SEC + "timeout_guard.rs"), ("drop: cancel, then join", SEC + "timeout_guard.rs")])
prop("P05", "The CPU-time guard terminates on expiry and leaves nothing armed",
     "A CPU-time guard measures the CPU time of its own thread, is registered, and the process handles its signal, before its timer can fire, terminates only its own script and reports that it did; when it is dropped, or cannot be armed, its timer is deleted and its registration removed so that a signal still in flight terminates neither a freed isolate nor the script that runs next.",
     ["schedules", "fault_sequences"], "every order of timer signal, drop, reset and arming failure",
     "Tests observe one timer at a time; signal delivery during drop and failing timer syscalls are not exercised.",
     [SEC + "cpu_enforcer.rs"], [("registry insert before timer creation, removal on drop and on failure", SEC + "cpu_enforcer.rs"), ("signal thread looks up the id carried by the signal", SEC + "cpu_enforcer.rs")])
prop("P06", "Tenant code always runs under its configured limits",
     "Whenever an event is dispatched to tenant code, or its background work is drained, a wall-clock guard and a CPU-time guard built from that script's limits are alive for the whole run.",
     ["programs", "configurations"], "every entry point that dispatches an event or drains background work",
     "A missing guard only shows with a script that never yields on that particular entry point.",
     ["src/execution_context.rs", "src/worker.rs"], [("guards created before dispatch and dropped after the run", "src/execution_context.rs"), ("same in the one-shot worker", "src/worker.rs")])
prop("P07", "The reported termination reason is the limit that was hit",
     "After a run, a CPU-time overrun is reported as such, otherwise a wall-clock overrun, otherwise a memory-limit hit, otherwise an abort, and only then the script's own result; no run in which a limit fired is reported as success, and both execution modes classify identically.",
     ["histories"], "all combinations of fired limits, abort and script outcome, in both execution modes",
     "Combinations of simultaneously fired limits do not occur in the tests.",
     ["src/execution_context.rs", "src/worker.rs"], [("termination classification after the run", "src/execution_context.rs"), ("sibling classification", "src/worker.rs")])
GC = "src/gc/"
prop("P08", "External-memory guards report exactly what they own",
     "A guard that is created under an isolate's lock belongs to that isolate and reports its amount to it, every change reports exactly the difference between new and old amount, and dropping it takes back exactly the amount it last held, exactly once; an empty guard reports nothing.",
     ["histories"], "every sequence of create, adjust, set and drop, under the lock or not",
     "Unit tests check a few sequences without an isolate; double or missing reports need particular sequences.",
     [GC + "external_memory.rs", GC + "traceable.rs"], [("create/adjust/set/drop", GC + "external_memory.rs")])
prop("P09", "Deferred memory deltas reach their isolate exactly once",
     "Changes made while the isolate is not locked are accumulated without loss and handed to V8 exactly once when the isolate is next locked; changes made under the lock go to V8 at once, and releasing a nested lock restores the enclosing one.",
     ["schedules", "histories"], "every interleaving of lock, unlock, nesting and off-thread changes",
     "The tests do not create isolates, so the hand-over is never executed.",
     [GC + "js_lock.rs"], [("thread-local current isolate with swap-to-zero on lock", GC + "js_lock.rs")])
prop("P10", "Deferred V8 handles are destroyed once, under the lock holder",
     "Every handle that is deferred is destroyed exactly once, by the thread that drains the queue, outside the queue's own mutex; none is lost, and the queue's pending count never claims fewer handles than it holds.",
     ["schedules"], "all interleavings of deferring threads and the draining thread",
     "The tests drain single-threaded queues.",
     [GC + "deferred_destruction.rs"], [("take-all under mutex, drop after release", GC + "deferred_destruction.rs")])
prop("P11", "Memory tracing counts every tracked part exactly once",
     "For any struct that derives memory tracing, the reported size is the sum over exactly the fields marked for tracking, for named and positional fields alike, and types that the derive cannot handle are rejected at compile time; built-in containers count their own allocation plus each of their contents, and contents that several holders share are not counted by each of them.",
     ["programs"], "every struct definition with any mix of tracked and untracked fields",
     "Tests derive on a handful of structs.",
     ["gc-derive/src/lib.rs"], [("field enumeration and generated sum", "gc-derive/src/lib.rs")])
# ---- concurrency ----------------------------------------------------------------------------
prop("P12", "At most one request holds an isolate; waiters are woken in arrival order",
     "The turn-taking lock is granted to a caller only if it was free; a caller that is refused is queued behind earlier ones before the refusal is returned, and each release frees the lock and then wakes exactly the longest-waiting caller, if any.",
     ["schedules"], "all interleavings of acquiring, refused and releasing requests",
     "Tests replay a few sequential orders with dummy wakers.",
     ["src/async_waiter.rs"], [("atomic flag plus FIFO of wakers", "src/async_waiter.rs")])
prop("P13", "An isolate never serves two owners",
     "A pooled isolate is handed to a request only if the isolate belongs to that request's owner, and an isolate that is created for a request is tagged with that request's owner for its whole life.",
     ["histories"], "every history of requests by any owners against a pool at any fill level",
     "The pool cannot be built here; a leak needs reuse after a particular eviction order.",
     ["src/pool.rs"], [("owner match before reuse", "src/pool.rs")])
prop("P14", "Pool slots are always given back and never given twice",
     "An isolate slot is handed out only when it is free and is marked busy by that very step, every slot acquired for a request is released once on every way the request can end, and eviction only removes isolates that nobody is using.",
     ["histories", "fault_sequences"], "every outcome of a request: success, script error, initialisation error, limit hit",
     "Error exits of the request path are many and each needs its own failure.",
     ["src/pool.rs"], [("compare-and-set on the slot state", "src/pool.rs"), ("release on each exit of the request path", "src/pool.rs")])
prop("P15", "The pool grows past its limits only while it is busy, and shrinks back",
     "An isolate is created only while its owner is below the per-owner limit (otherwise the request is refused), and, when the pool has reached its size, only after an attempt to evict an idle isolate in its place; whenever a slot is given back, idle isolates above the pool's size are removed until the pool is back within it or none is idle.",
     ["histories"], "all fill levels and owner mixes", "Needs a full pool with particular owners.",
     ["src/pool.rs"], [("limit checks before creation", "src/pool.rs"), ("trimming after release", "src/pool.rs")])
prop("P16", "V8 handles of pooled isolates are only dropped under their lock",
     "Whenever the pool destroys a context, a cached context or the parts of one - at the end of a request, on an error, when a request is cancelled at an await point, on eviction or when the isolate goes - the isolate is locked at that moment, and handles and deferred destructions go before their isolate.",
     ["histories", "fault_sequences"], "every exit of the request path and every eviction",
     "Violations corrupt memory only when another thread uses the isolate.",
     ["src/pool.rs", "src/execution_context.rs", "src/locker_managed_isolate.rs"], [("drop-under-lock helper", "src/pool.rs"), ("isolate drop order", "src/pool.rs")])
prop("P17", "A warm context is reused only for the identical worker and configuration",
     "A cached execution context serves a request only if worker, code version and environment revision are all equal and the reuse limit is not exceeded, and a context is put back only after a run that ended normally with its background work drained.",
     ["histories"], "all sequences of deployments, environment changes and failures",
     "Stale reuse needs a redeploy between two requests to one isolate.",
     ["src/pool.rs"], [("cache key comparison", "src/pool.rs"), ("cache insertion after success", "src/pool.rs")])
SM = "src/runtime/stream_manager.rs"
prop("P18", "Stream and callback identifiers are never reissued while the runtime lives",
     "Within one runtime no stream identifier and no callback identifier is ever handed out twice: each counter only moves forward, by at least one for every identifier, also when the registry is cleared or the context is reset for the next request, and an identifier is the value its own step of the counter produced, so data that arrives late can never reach another request's stream or callback.",
     ["histories"], "every sequence of requests on a reused context, with operations finishing arbitrarily late",
     "Needs a late completion from an earlier request on a reused context.",
     [SM, "src/execution_context.rs"], [("id counters", SM), ("context reset", "src/execution_context.rs")])
prop("P19", "The stream registry stays consistent",
     "Creating a stream makes its sender, receiver and metadata available under the new identifier; closing it or clearing the registry removes all three, and a read that was in progress does not bring them back. Writing to or reading from an unknown stream is an error, a write to a stream whose reader is gone removes its sender, and a write refused because the buffer is full changes nothing.",
     ["histories"], "every sequence of create, write, read, close and clear",
     "Tests walk a few sequences.",
     [SM], [("registry maps updated together", SM)])
prop("P20", "Stream chunks are delivered in order, bounded, with one final marker",
     "Chunks pass through one bounded queue per stream whose size is the configured high-water mark, in the order written; a reader that has received the final or error chunk finds the stream gone, and a body pump forwards every chunk it receives once and in order and then ends with exactly one final or error chunk, never presenting a failure as a clean end.",
     ["histories", "schedules"], "all chunk sequences, sender failures and reader speeds",
     "Tests send short bodies through idle readers.",
     [SM], [("bounded channel per stream", SM), ("terminal chunk handling", SM)])
SCH = "src/runtime/scheduler.rs"
prop("P21", "Each finished operation settles its promise exactly once",
     "For every kind of completion message, the runtime invokes exactly one of the matching script callbacks (success or failure), with the payload of that message, and removes both registrations, in each of the runtime's execution modes.",
     ["histories"], "every message kind and every registration state",
     "Message kinds times execution modes exceed what the tests drive, and none of it runs here.",
     ["src/runtime/mod.rs", "src/execution_context.rs"], [("callback dispatch", "src/runtime/mod.rs"), ("sibling dispatch", "src/execution_context.rs")])
prop("P22", "Every scheduled operation is answered exactly once unless cancelled",
     "For every request the script sends to the event loop that carries a callback, the event loop sends exactly one completion for that callback on every path that is not cancelled, including failed operations and results of an unexpected kind, which are completed as failures, and a completion that is sent wakes the request that waits for it.",
     ["histories", "fault_sequences"], "every message kind and every operation outcome",
     "Operation failures and unexpected results need a faulty host.",
     [SCH], [("event loop dispatch and operation tasks", SCH)])
prop("P23", "Cancelling a request stops all of its background tasks",
     "Every task the event loop starts observes the request's cancellation signal at every point where it can wait, and once it has seen it, it ends without waiting again, so that after cancellation no task of the request keeps running; cancellation is never presented to the script as a normal end of data or a finished operation.",
     ["schedules"], "cancellation at every wait point of every task",
     "Needs cancellation at a particular await.",
     [SCH], [("select on the cancel token", SCH)])
prop("P24", "A reused context starts every request from a clean slate",
     "Before a context serves another request, all per-request state of the previous one is discarded: every pending callback, open stream and queued completion, the previous response, result and completion flags, pending timers (cancelled in the event loop too), and the abort, termination and out-of-memory state; a reset that could not do this is not reported as successful.",
     ["histories"], "every state in which the previous request can have left the context",
     "Leftovers only show for particular previous requests.",
     ["src/execution_context.rs", "src/request_context.rs", "src/pool.rs"], [("reset", "src/execution_context.rs"), ("per-request state", "src/request_context.rs")])
JSW = "src/worker.rs"
prop("P25", "Every dispatched event completes with a response",
     "For every fetch, scheduled and task event and for both handler styles (addEventListener and default export), the event glue calls the worker's handler once and, on every path - normal return, thrown exception of any value, rejected promise, invalid response, missing handler - marks the run complete once the handler, its response and its waitUntil work are through; the response or result that the handler gave is the one recorded, and a failure is recorded as an error response (5xx) or a failed task result.",
     ["programs"], "all handler behaviours: synchronous, asynchronous, throwing or rejecting with any value, responding at once, late or not at all",
     "Handler behaviours combine with two handler styles and two event kinds.",
     [JSW, "src/execution_context.rs"], [("event glue script", JSW), ("event glue script", "src/execution_context.rs")])
prop("P26", "A streamed response body is always ended, once, and never silently cut",
     "When a response body is streamed, every non-empty chunk read from the body is forwarded once and in order as the bytes it stands for (however full the stream's buffer is), the stream is ended exactly once on every path unless the consumer is gone (whose source is then cancelled), the count of active streams returns to its former value, and a body that fails or is cut off is never presented as complete; the same holds for bodies that the host forwards into a stream.",
     ["programs", "schedules"], "all body sources, failures and client disconnects",
     "Failing bodies and disconnects in mid-stream are not exercised.",
     [JSW, "src/runtime/bindings/streams.rs", "src/execution_helpers.rs", SCH], [("response body pump", JSW), ("response stream natives", "src/runtime/bindings/streams.rs"), ("stream to host response", "src/execution_helpers.rs"), ("host body to stream", SCH)])
prop("P27", "Environment values and bindings cannot inject code",
     "Configuration values and names reach the script only as data: nothing supplied by the tenant or the platform is spliced into script text without JSON encoding, and the environment object cannot be altered by one request for the next.",
     ["inputs"], "all environment names and values, binding names and task payloads",
     "Injection needs a value with particular characters.",
     ["src/worker.rs", "src/execution_context.rs"], [("environment setup", "src/worker.rs"), ("sibling", "src/execution_context.rs")])
prop("P28", "All execution modes offer the same API and the same restrictions",
     "Every way of building a context - fresh isolate, pooled isolate, one-shot worker, snapshot - installs the same set of web APIs and removes the same dangerous globals before tenant code runs.",
     ["configurations"], "every construction path", "Each path is tested alone, if at all.",
     ["src/runtime/mod.rs", "src/execution_context.rs", "src/worker.rs", "src/snapshot.rs"], [("setup sequences", "src/runtime/mod.rs")])
prop("P29", "Script-controlled arguments cannot crash the host",
     "No native function reachable from a script unwinds, aborts or allocates without bound because of the number, type or value of its arguments.",
     ["inputs"], "every native function and all argument lists",
     "Tests pass well-formed arguments.",
     ["src/runtime/crypto", "src/runtime/text_encoding.rs", "src/runtime/bindings"], [("argument checks in native callbacks", "src/runtime")])
prop("P30", "Host memory enters script buffers only through the sandbox-safe path",
     "Bytes that the host hands to the script are placed into V8-owned memory by a path that copies all of them in sandboxed builds; no native wraps a host allocation as a script buffer there. Raw writes into script-visible memory stay within the view they belong to.",
     ["configurations"], "every native that returns bytes, in sandboxed and plain builds",
     "The sandboxed configuration is never built in the tests.",
     ["src/v8_helpers.rs", "src/runtime/text_encoding.rs", "src/runtime/mod.rs"], [("buffer helper", "src/v8_helpers.rs")])
prop("P31", "Code-cache containers are unpacked safely",
     "Unpacking a stored code cache never reads outside the data for any byte string, rejects data without the right marker or with an inconsistent length, and recovers exactly the source and cache that were packed.",
     ["inputs"], "all byte strings", "Tests corrupt a few bytes.",
     ["src/snapshot.rs"], [("pack/unpack", "src/snapshot.rs")])
CR = "src/runtime/crypto/"
prop("P32", "Signature verification fails closed",
     "A signature or MAC is reported valid only if the cryptographic library confirmed it, in constant time, over exactly the given key, signature and data with the named algorithm; any malformed key, unknown algorithm or missing argument yields not-valid.",
     ["inputs"], "all keys, signatures, data and algorithm names", "Tests verify good and one bad signature.",
     [CR], [("verify natives", CR)])
prop("P33", "Algorithm names mean the same algorithm everywhere",
     "Digests, MACs, signatures and derived keys are computed by the algorithm the caller named over exactly the bytes given, complete and unaltered. A name means the same algorithm, compared in the same way, for digesting, signing, verifying and key derivation, each verifying algorithm is the counterpart of its signing algorithm, and an unknown name produces nothing.",
     ["inputs"], "every algorithm name at every operation", "Mismatches cancel out in round-trip tests or hide in untested names.",
     [CR], [("algorithm tables", CR)])
prop("P34", "Random values come from the system generator and fill the whole request",
     "Every byte handed out as random comes from the operating system's secure generator for that very call, every byte of the given typed array (and nothing outside it) is filled whatever its element type, a generator failure is reported as an exception rather than returning predictable bytes, and each UUID is freshly random.",
     ["inputs", "fault_sequences"], "all requested lengths and offsets, and generator failure", "Randomness failures cannot be provoked in tests.",
     [CR + "random.rs"], [("random natives", CR + "random.rs")])
prop("P35", "A key is only used for its own algorithm and permitted operations",
     "Signing, verifying and deriving succeed only when the key was made for the requested algorithm and permits that operation, and importing a key fixes its algorithm, usages and bytes, so that a key of one algorithm is never used as key material of another.",
     ["inputs"], "all combinations of key, algorithm and operation", "Cross-algorithm combinations are not tested.",
     [CR], [("subtle.* scripts", CR)])
# ---- web API scripts ------------------------------------------------------------------------
WA = "src/runtime/bindings/web_api.rs"
prop("P36", "A request or response body can be consumed once",
     "Every method that consumes a body rejects if the body was already used or is being read, marks it used before any data is handed out, and cloning a used body is an error.",
     ["histories"], "every sequence of body methods on requests and responses", "Method pairs are many.",
     [WA], [("body-used guards", WA)])
prop("P37", "Header names are case-insensitive in every operation",
     "Every header operation looks names up and stores them in normalised form, so that get, set, append, delete, has and iteration agree for every spelling of a name.",
     ["inputs"], "all header names and operations", "Tests use a few spellings.",
     [WA], [("Headers class", WA)])
ST = "src/runtime/streams.rs"
prop("P38", "Readable streams follow their state machine",
     "A stream that is closed or errored never changes state again and accepts no more chunks, pending reads are settled when it closes or errors, queued chunks are delivered before the end, and only one reader can hold the lock.",
     ["histories"], "every sequence of enqueue, read, close, error, cancel and lock", "Sequences are unbounded.",
     [ST], [("stream controller and readers", ST)])
prop("P39", "Abort signals fire once",
     "An abort signal changes to aborted at most once, keeps its first reason, and notifies each listener once; a signal that is already aborted stays so.",
     ["histories"], "every sequence of aborts and listener registrations", "Tests abort once.",
     [WA], [("AbortController/AbortSignal", WA)])
prop("P40", "Web sockets follow their state machine",
     "A socket sends only while open, moves only forward through its states, delivers close exactly once, and dispatches no message before it is open or after it is closed.",
     ["histories"], "every order of script calls and network events", "Needs particular orders.",
     ["src/runtime/bindings/websocket.rs"], [("WebSocket class", "src/runtime/bindings/websocket.rs")])
prop("P41", "A cleared timer never fires and each timer keeps its own callback",
     "Every timer gets its own identifier and keeps its own callback and arguments, a cleared timer's callback is never invoked, a one-shot timer fires at most once and is then forgotten even if its callback throws, and an interval repeats until cleared.",
     ["histories", "schedules"], "every order of set, clear and expiry", "Needs expiry racing with clear.",
     ["src/runtime/bindings/timers.rs", SCH], [("timer registration", "src/runtime/bindings/timers.rs"), ("timer tasks", SCH)])
prop("P42", "No lock is held while waiting or calling out",
     "No thread holds one of the runtime's mutexes or interior borrows (RefCell) while it suspends at an await point, calls into script or into code it does not know (a waker, a boxed callback), or acquires the same lock again; no mutex is held across a blocking wait; and no two locks are taken in both orders.",
     ["schedules"], "every await point, every call-out and every acquisition while a guard may be alive", "Deadlocks and double borrows need contention or re-entrance.",
     ["src"], [("guard scopes", "src")])


NA = {}


def na(id, reason):
    NA[id] = reason


def main():
    sys.path.insert(0, ROOT)
    from owv import check
    check.load_rules()
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, nas = [], []
    for p in P:
        c = check.CHECKS.get(p["id"])
        if c:
            cmd = f"python3 -m owv {p['id']}"
            checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd, technique=c["technique"], level=c["level"], level_note=c["note"]))
        else:
            nas.append(dict(property=p["id"], reason=NA.get(p["id"], "no static rule built yet for this property")))
    json.dump(dict(version=1, setup_cmd="python3 -m compileall -q owv", checks=checks, not_applicable=nas), open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks,", len(nas), "not applicable")


if __name__ == "__main__":
    main()
