"""P18, P19, P20: the stream registry, the identifiers of streams and callbacks, and the body pumps."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *

SM = "runtime::stream_manager::StreamManager"
MAP = re.compile(r"(?:HashMap|BTreeMap|hash_map|btree_map|hash::map)::(?:\w+::)*(\w+)$")
ENTRY = re.compile(r"(?:hash_map|btree_map|hash::map|map::entry)::(?:\w+::)*(?:Entry|VacantEntry|OccupiedEntry)::(\w+)$")
LOOK = {"get", "get_mut", "contains_key", "get_key_value", "len", "is_empty", "iter", "keys", "values", "capacity", "reserve", "shrink_to_fit", "entry"}


def roles(p):
    f = {}
    for role, pred in (("senders", lambda t: re.search(r"Map<\w+,(?:\w+::)*Sender<", t)), ("receivers", lambda t: re.search(r"Map<\w+,(?:\w+::)*Receiver<", t)),
                       ("metadata", lambda t: re.search(r"Map<\w+,(?:\w+::)*String>", t)),
                       ("counter", lambda t: re.search(r"Mutex<(u64|StreamId)>|Atomic(U64|<u64>)", t)), ("capacity", lambda t: t == "usize")):
        c = typed_fields(p, SM, pred)
        if len(c) != 1:
            raise Missing(f"role:{role}", f"{len(c)} fields of {SM} can be its {role}: {c}")
        f[role] = c[0]
    return f


def field_of(t, names):
    """the innermost registry field a place or reference denotes"""
    hit = None
    for x in flow.walk(t):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] in names:
            hit = x
            break
    return hit


def under(path, names):
    """path is (a place inside) one of the fields"""
    while isinstance(path, tuple) and path and path[0] in ("fld", "idx", "mut", "ptr", "guard"):
        if path[0] == "fld" and path[2] in names:
            return path[2]
        path = path[1]
    return None


def want_for(F):
    maps = {F[k]: k for k in ("senders", "receivers", "metadata")}
    cnt = F["counter"]

    def want(e, st, k, n, a, r):
        if k == "store":
            u = under(n, set(maps) | {cnt})
            if u:
                return ("count", n, a[0] if a else None) if u == cnt else ("assign", maps[u], a[0] if a else None)
            return None
        if k in ("lock", "unlock"):
            u = under(n, set(maps) | {cnt})
            return (k, "counter" if u == cnt else maps[u]) if u else None
        if k == "select":
            return None
        m = ENTRY.search(n)
        if m:
            en = next((x for x in flow.walk(a[0]) if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("::entry") and under(x[2][0], maps)), None)
            if en:
                key = en[2][1]
                role = maps[under(en[2][0], maps)]
                if m.group(1) in ("or_insert", "insert", "insert_entry"):
                    return ("map", role, "insert", (a[0], key, a[1]), r)
                if m.group(1) in ("remove", "remove_entry"):
                    return ("map", role, "remove", (a[0], key), r)
                if m.group(1) not in ("key", "get", "get_mut", "into_mut"):
                    return ("map", role, "entry-" + m.group(1), (a[0], key), r)
            return None
        m = MAP.search(n)
        if m and a:
            u = under(a[0], maps)
            if u and m.group(1) == "retain":
                t = key_test(e, st, a[1])
                if t == ("const", False):
                    return ("map", maps[u], "clear", a, r)
                if t and t[0] == "ne":
                    return ("map", maps[u], "remove", (a[0], t[1]), r)
            return ("map", maps[u], m.group(1), a, r) if u else None
        if n.endswith("Iterator::any"):
            x = next((x for x in flow.walk(a[0]) if isinstance(x, tuple) and x and x[0] == "call" and MAP.search(x[1]) and MAP.search(x[1]).group(1) == "keys" and under(x[2][0], maps)), None)
            t = x and key_test(e, st, a[1])
            return ("map", maps[under(x[2][0], maps)], "contains_key", (x[2][0], t[1]), r) if t and t[0] == "eq" else None
        if re.search(r"mpsc::(?:bounded::)?Sender::(\w+)$", n):
            return ("tx", n.split("::")[-1], a, r)
        if re.search(r"mpsc::(?:bounded::|unbounded::)?Receiver::(\w+)$", n):
            return ("rx", n.split("::")[-1], a, r)
        if re.search(r"mpsc::(?:bounded::|unbounded::)?(channel|unbounded_channel)$", n):
            return ("channel", n.split("::")[-1], a, r)
        if n == "await":
            return ("await", a[0], r)
        if atomic(n) and a and under(a[0], {cnt}):
            return ("atom", atomic(n), a, r)
        return None
    return want


def muts(st):
    """mutations of the three maps"""
    out = []
    for ev in st.trace:
        if ev[0] == "map" and ev[2] not in LOOK:
            out.append((ev[1], ev[2], ev[3]))
        elif ev[0] == "assign":
            out.append((ev[1], "clear" if empty(ev[2]) else "assign", (None, ev[2])))
    return out


def empty(v):
    return v is not None and (v == ("default",) or (v[0] == "call" and re.search(r"Map::(new|with_capacity)$|Default::default$", v[1])))


def run(ctx, p, name, F, **kw):
    b = p.by_pretty.get(f"{SM}::{name}")
    if b is None:
        raise Missing(f"fn:{name}", f"{SM}::{name} not found")
    R = Rec(want_for(F), keep=lambda f: True, limit=3, call=arc_identity)
    e = ctx.paths(p, b, R, unwind=False, **kw)
    ex = [(st, r) for k, st, r in e.exits if k == "return"]
    if not ex:
        raise Missing(f"paths:{name}", f"{SM}::{name} never returns")
    return b, e, ex


def w_of(b, st, r):
    return f"{b.pretty}: {[ev[:3] if ev[0] == 'map' else ev[:2] for ev in st.trace]!s:.600} -> {flow.show(r)} under {flow.show_facts(st)[:300]}"


def disc(st, t):
    v = st.facts.get(("disc", t))
    if v is None:
        v = next((x for f, x in st.facts.items() if isinstance(f, tuple) and f[0] == "disc" and same(f[1], t)), None)
    return v if isinstance(v, int) else None


def arg(b, i):
    return ("arg", b.local_name(b.args[i]))


def present(st, ev):
    """does a lookup event say the key is there: True / False / None"""
    m, r = ev[2], ev[4]
    if m == "contains_key":
        v = st.facts.get(r)
        return v if isinstance(v, bool) else None
    d = disc(st, r)
    if m == "entry":
        return None if d is None else d == 0
    return None if d is None else d == 1


def is_err(r):
    return r[0] == "agg" and r[1].endswith("::Err")


def is_ok(r):
    return r[0] == "agg" and r[1].endswith("::Ok")


def sender_of(t, F):
    """a sender reached by looking a key up in the senders map: the lookup call"""
    while t[0] in ("mut", "ptr"):
        t = t[1]
    if t[0] == "call" and ENTRY.search(t[1]) and ENTRY.search(t[1]).group(1) in ("get", "get_mut", "into_mut"):
        t = next((x for x in flow.walk(t) if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("Map::entry") and under(x[2][0], {F["senders"]})), t)
        return t if t[1].endswith("Map::entry") else None
    if t[0] == "fld" and t[2] == "Some.0":
        t = t[1]
    if t[0] == "call" and MAP.search(t[1]) and MAP.search(t[1]).group(1) in ("get", "get_mut") and under(t[2][0], {F["senders"]}):
        return t
    return None


def counter_rule(ctx, p, F):
    """every write of the id counter moves it forward; the id handed out is read under the lock of that write"""
    n = 0
    for b in p.bodies.values():
        if "::tests::" in b.pretty or b.pretty.startswith("tests"):
            continue
        if not (b.pretty.startswith("runtime::stream_manager::") or "StreamManager" in b.header):
            continue
        b.parse()
        R = Rec(want_for(F), keep=lambda f: True, limit=3, call=arc_identity, inline=lambda x: "stream_manager" in x.pretty)
        e = ctx.paths(p, b, R, unwind=False)
        for k, st, r in e.exits:
            old = None
            for ev in st.trace:
                if ev[0] == "count":
                    n += 1
                    d = lin(ev[2]) if ev[2] is not None else {}
                    c = d.pop(None, 0)
                    ok = c >= 1 and list(d.values()) == [1] and field_of(next(iter(d)), {F["counter"]}) is not None and next(iter(d))[0] == "fld"
                    ctx.require(ok, "counter-moves-forward", b.pretty, f"the stream id counter is set to {flow.show(ev[2]) if ev[2] else '?'}", w_of(b, st, r) if r else b.pretty)
                if ev[0] == "atom" and ev[1] in MUTATORS:
                    n += 1
                    ok = ev[1] == "fetch_add" and ev[2][1][0] == "c" and ev[2][1][1] >= 1
                    ctx.require(ok, "counter-moves-forward", b.pretty, f"the stream id counter is changed by {ev[1]}", w_of(b, st, r) if r else b.pretty)
    ctx.floor("writes of the stream id counter", n, 1)


def create_rule(ctx, p, F):
    b, e, ex = run(ctx, p, "create_stream", F)
    conv = set()
    for st, r in ex:
        w = w_of(b, st, r)
        cs = [ev for ev in st.trace if ev[0] == "count"]
        at = [ev for ev in st.trace if ev[0] == "atom" and ev[1] in MUTATORS]
        if not ctx.require(len(cs) + len(at) == 1, "id-issued", "once", f"creating a stream moves the id counter {len(cs) + len(at)} times", w):
            continue
        if at:
            ctx.require(same(r, at[0][3]), "id-issued", "own-value", f"the id {flow.show(r)} is not the value taken from the counter", w)
            continue
        new, got = lin(cs[0][2]), lin(r)
        b1, a1 = new.pop(None, 0), got.pop(None, 0)
        if ctx.require(new == got and 0 <= a1 <= b1, "id-issued", "own-value", f"the id {flow.show(r)} is not taken from the counter's step to {flow.show(cs[0][2])}", w):
            conv.add("after" if a1 else "before")
        # read and written under one hold of the lock
        i = st.trace.index(cs[0])
        lk = [x for x in st.trace[:i] if x[0] in ("lock", "unlock") and x[1] == "counter"]
        ctx.require([x[0] for x in lk] == ["lock"], "id-issued", "one-lock", f"the counter is read and advanced under {[x[0] for x in lk]}", w)
    ctx.require(len(conv) <= 1, "id-issued", "convention", "ids are taken both before and after the step", b.pretty)


def clone_rule(ctx, p, F, names):
    bs = [x for x in p.bodies.values() if re.search(r"stream_manager::.*[cC]lone.*::clone$", x.pretty) and SM.split("::")[-1] in x.header]
    if not bs:
        return
    for b in bs:
        R = Rec(lambda e, st, k, n, a, r: None, call=arc_identity)
        e = ctx.paths(p, b, R, unwind=False)
        for k, st, r in e.exits:
            if k != "return":
                continue
            for n in names:
                v = sub(r, 99, F[n])
                ctx.require(v is not None and same(deref(v), ("fld", arg(b, 0), F[n])) or r == arg(b, 0), "shared-by-clones", n,
                            f"a cloned manager gets its own {n}: {flow.show(v) if v else '?'}", f"{b.pretty} -> {flow.show(r)}")


def deref(t):
    while t[0] in ("ptr", "mut"):
        t = t[1]
    return t


@check("P18", "path-sensitive dataflow over MIR: monotonicity of every write to the id counters, who may write them",
       "Counters are 64 bit and assumed not to wrap; callback ids are decided per counter, and code the sandbox does not build is type-checked against stand-in host types.")
def p18(ctx):
    """Every write to the stream id counter and to the callback id counters, in any function of the crate, must set it to its own
    previous value plus a positive constant; the id handed out must come from that same step under one hold of the lock; and the
    callbacks registered in the step must be filed under that id.  Copies of the manager must share the counter."""
    p = ctx.prog("scope")
    F = roles(p)
    create_rule(ctx, p, F)
    counter_rule(ctx, p, F)
    clone_rule(ctx, p, F, ["counter"])
    # nobody outside the registry's module can reach the counter (it is private), so the rest is about callback ids
    q = ctx.prog("full")
    names = set()
    for name, d in q.defs.items():
        for v in d["variants"]:
            for f in v[1]:
                if re.search(r"RefCell<(?:u64|(?:\w+::)*CallbackId)>", f[1].replace(" ", "")):
                    names.add(f[0])
    if not names:
        raise Missing("role:callback-counter", "no callback id counter found")
    steps = news = 0
    conv = set()
    for b in sorted(q.bodies.values(), key=lambda b: b.pretty):
        if "::tests::" in b.pretty or not re.search(r"RefCell(?:::)?<u64>|RefMut<'_, u64>|RefCell::<u64>", b.text):
            continue
        b.parse()
        n_new = sum(1 for k in b.blocks for t in [b.block(k)[1]] if t[0] == "call" and re.search(r"RefCell::<u64>::new$", t[2]))
        if n_new:
            news += 1
            ctx.require(n_new == 1, "one-counter", b.pretty, f"{n_new} callback id counters are made for one runtime", b.pretty)
        if not re.search(r"RefMut<'_, u64>|RefCell::<u64>::(replace|set|swap|get_mut|as_ptr|take|replace_with|try_borrow_mut)|RefCell<u64>.*(replace|swap)|&mut u64", b.text):
            continue
        R = Rec(lambda e, st, k, n, a, r: ("count", n, a[0] if a else None) if k == "store" and under(n, names) else
                ("insert", a, r) if k == "call" and MAP.search(n) and MAP.search(n).group(1) == "insert" and a and re.search(r"callback", flow.show(a[0])) else
                ("send", a, r) if k == "call" and re.search(r"mpsc::.*Sender::(send|try_send)$", n) else None,
                keep=lambda f: False, limit=4, inline=lambda x: bool(re.search(r"RefCell<u64>|register|FetchState|StreamState", x.header + x.text[:4000])))
        e = ctx.paths(q, b, R, unwind=False, max_states=60000)
        for k, st, r in e.exits:
            ids = []
            for ev in st.trace:
                if ev[0] == "count":
                    steps += 1
                    d = lin(ev[2]) if ev[2] is not None else {}
                    c = d.pop(None, 0)
                    base = next(iter(d)) if d else None
                    ok = c >= 1 and list(d.values()) == [1] and under(base, names)
                    ctx.require(ok, "callback-counter-moves-forward", b.pretty, f"the callback id counter is set to {flow.show(ev[2]) if ev[2] else '?'}", b.pretty)
                    if ok:
                        ids.append((d, c))
            for ev in st.trace:
                if ev[0] != "insert":
                    continue
                g = lin(ev[1][1])
                a1 = g.pop(None, 0)
                key = next(iter(g), None)
                if not ids and not (key is not None and under(deref(key), names)):
                    continue
                hit = [(d, c) for d, c in ids if same(key, next(iter(d))) and 0 <= a1 <= c]
                if hit:
                    conv.add("after" if a1 else "before")
                ctx.require(bool(hit), "filed-under-own-id", b.pretty, f"a callback is filed under {flow.show(ev[1][1])}, not under an id taken by a step of the counter", b.pretty)
    ctx.require(len(conv) == 1, "filed-under-own-id", "convention", f"callback ids are taken both before and after the counter's step: {sorted(conv)}", "all functions that step the counter")
    ctx.floor("steps of the callback id counter", steps, 3)
    ctx.floor("functions that make a callback id counter", news, 2)


@check("P19", "path-sensitive dataflow (typestate of the three registry maps) over MIR of every registry operation",
       "Each operation is decided on its own paths; which of two racing operations goes first is not, beyond the put-back of a receiver, which must be checked under a lock.")
def p19(ctx):
    """Every path of every registry operation is followed and its lookups, insertions and removals on the three maps recorded.
    Creation files the two ends of one new channel and the description under the new id; writing sends the given chunk once to
    the sender found under the given id, and removes that sender exactly when the channel is found closed; reading takes the
    receiver out, puts it back only after a data chunk and only if, under a lock held until then, the stream is still
    registered; closing removes the id from all three maps and clearing empties all three; nothing else changes them."""
    p = ctx.prog("scope")
    F = roles(p)
    three = ["senders", "receivers", "metadata"]
    rq = lambda c, rule, key, msg, w: ctx.require(c, rule, key, msg, w)
    seen = set()

    b, e, ex = run(ctx, p, "create_stream", F)
    seen.add(b.pretty)
    for st, r in ex:
        w = w_of(b, st, r)
        ms = muts(st)
        if not rq(sorted(m[0] for m in ms) == sorted(three) and all(m[1] == "insert" for m in ms), "create", "three-records", f"creating a stream does {[m[:2] for m in ms]}", w):
            continue
        by = {m[0]: m[2] for m in ms}
        for k in three:
            rq(same(by[k][1], r), "create", f"key-{k}", f"the {k} record is filed under {flow.show(by[k][1])}, the id handed out is {flow.show(r)}", w)
        ch = [ev for ev in st.trace if ev[0] == "channel"]
        tx, rx = deref(by["senders"][2]), deref(by["receivers"][2])
        rq(len(ch) == 1 and tx == ("fld", ch[0][3], "0") and rx == ("fld", ch[0][3], "1"), "create", "one-channel", f"sender {flow.show(tx)} and receiver {flow.show(rx)} are not the two ends of one channel", w)
        rq(same(deref(by["metadata"][2]), arg(b, 1)), "create", "description", f"the description filed is {flow.show(by['metadata'][2])}", w)

    # ---- writing
    for name, isasync in (("write_chunk", True), ("try_write_chunk", False)):
        fn = name + "::{closure#0}" if isasync and p.by_pretty.get(f"{SM}::{name}::{{closure#0}}") else name
        b, e, ex = run(ctx, p, fn, F)
        seen.add(b.pretty)
        ids, chunks = arg_terms(b, fn, 1), arg_terms(b, fn, 2)
        out = set()
        for st, r in ex:
            w = w_of(b, st, r)
            sends = [ev for ev in st.trace if ev[0] == "tx" and ev[1] in ("send", "try_send", "blocking_send", "send_timeout", "reserve", "try_reserve", "send_replace")]
            ms = muts(st)
            looks = [ev for ev in st.trace if ev[0] == "map" and ev[1] == "senders" and ev[2] in ("get", "get_mut", "contains_key", "entry")]
            for ev in looks:
                rq(ids(ev[3][1]), name, "lookup-key", f"the sender is looked up under {flow.show(ev[3][1])}", w)
            if not sends:
                ok = any(present(st, ev) is False for ev in looks) or any(ev[0] == "tx" and ev[1] == "is_closed" and st.facts.get(ev[3]) is True for ev in st.trace)
                rq(ok, name, "not-sent", "a chunk for a registered stream is dropped", w)
                rq(is_err(r), name, "unknown-is-error", f"writing to an unknown stream answers {flow.show(r)}", w)
                rq(all(m[0] == "senders" and m[1] == "remove" and ids(m[2][1]) for m in ms), name, "unknown-no-effect", f"writing to an unknown stream does {[m[:2] for m in ms]}", w)
                out.add("unknown")
                continue
            if not rq(len(sends) == 1, name, "sent-once", f"the chunk is sent {len(sends)} times", w):
                continue
            s = sends[0]
            lk = sender_of(s[2][0], F)
            rq(lk is not None and ids(lk[2][1]), name, "own-sender", f"the chunk goes to {flow.show(s[2][0])}", w)
            rq(s[1] == ("send" if isasync else "try_send"), name, "send-kind", f"the chunk is sent with {s[1]}", w)
            rq(chunks(s[2][1]), name, "own-chunk", f"what is sent is {flow.show(s[2][1])}", w)
            res = s[3]
            if isasync:
                aw = [ev for ev in st.trace if ev[0] == "await" and has(ev[1], s[3])]
                if not rq(len(aw) == 1, name, "waits", "the send is not waited for", w):
                    continue
                res = aw[0][2]
            d = disc(st, res)
            if not rq(d is not None, name, "result-looked-at", "the outcome of the send is ignored", w):
                continue
            if d == 0:
                out.add("sent")
                rq(is_ok(r), name, "sent-is-ok", f"a chunk that was sent is answered with {flow.show(r)}", w)
                rq(not ms, name, "sent-no-effect", f"after a successful send: {[m[:2] for m in ms]}", w)
            else:
                rq(is_err(r), name, "failed-is-error", f"a chunk that was not sent is answered with {flow.show(r)}", w)
                why = disc(st, ("fld", res, "Err.0"))
                closed = isasync or why == 1 or any(ev[0] == "tx" and ev[1] == "is_closed" and st.facts.get(ev[3]) is True for ev in st.trace)
                full = not isasync and (why == 0 or any(ev[0] == "tx" and ev[1] == "is_closed" and st.facts.get(ev[3]) is False for ev in st.trace))
                if closed:
                    out.add("closed")
                    rq([m[:2] for m in ms] == [("senders", "remove")] and ids(ms[0][2][1]), name, "closed-removed", f"when the reader is gone: {[m[:2] for m in ms]}", w)
                elif full:
                    out.add("full")
                    rq(not ms, name, "full-no-effect", f"when the buffer is full: {[m[:2] for m in ms]}", w)
                else:
                    rq(False, name, "why-looked-at", "a full buffer and a closed channel are not told apart", w)
        need = {"unknown", "sent", "closed"} | (set() if isasync else {"full"})
        rq(need <= out, name, "outcomes", f"{name} cannot end in {sorted(need - out)}", b.pretty)

    # ---- reading
    fn = "read_chunk::{closure#0}"
    b, e, ex = run(ctx, p, fn, F)
    seen.add(b.pretty)
    ids = arg_terms(b, fn, 1)
    out = set()
    vs = [v[0] for v in p.adt("runtime::stream_manager::StreamChunk")["variants"]]
    for st, r in ex:
        w = w_of(b, st, r)
        ms = muts(st)
        tk = [m for m in ms if m[0] == "receivers" and m[1] == "remove"]
        if not rq(len(tk) == 1 and ids(tk[0][2][1]), "read", "takes-receiver", f"reading does {[m[:2] for m in ms]}", w):
            continue
        tev = next(ev for ev in st.trace if ev[0] == "map" and ev[1] == "receivers" and ev[2] == "remove")
        recvs = [ev for ev in st.trace if ev[0] == "rx" and ev[1] in ("recv", "try_recv", "recv_many", "blocking_recv", "poll_recv", "close")]
        rest = [m for m in ms if m is not tk[0]]
        if disc(st, tev[4]) == 0:
            out.add("unknown")
            rq(is_err(r) and not recvs and not rest, "read", "unknown-is-error", f"reading an unknown stream answers {flow.show(r)} after {[m[:2] for m in rest]}", w)
            continue
        aw = [ev for ev in st.trace if ev[0] == "await"]
        if not rq(len(recvs) == 1 and recvs[0][1] == "recv" and len(aw) == 1 and has(recvs[0][2][0], tev[4]) and has(aw[0][1], recvs[0][3]), "read", "one-receive", f"one read receives {len(recvs)} times", w):
            continue
        got = aw[0][2]
        d = disc(st, got)
        chunk = ("fld", got, "Some.0")
        kind = disc(st, chunk)
        ins = [m for m in rest if m[0] == "receivers" and m[1] == "insert"]
        rq(rest == ins and len(ins) <= 1, "read", "only-put-back", f"a read also does {[m[:2] for m in rest if m not in ins]}", w)
        if d == 0:
            out.add("ended")
            rq(is_err(r) and not ins, "read", "ended-is-error", f"the end of a channel is answered with {flow.show(r)}", w)
            continue
        rq(is_ok(r) and same(deref(r[3][0]), chunk), "read", "answer", f"a read of {flow.show(got)} answers {flow.show(r)}", w)
        kd = e.lookup_disc(st, chunk)
        if kind is None and isinstance(kd, tuple) and kd[0] == "!" and vs.index("Data") in kd[1]:
            for v in [v for i, v in enumerate(vs) if i not in kd[1]]:
                out.add(v)
            rq(not ins, "read", "final-not-put-back", "the receiver is kept after a final chunk", w)
            continue
        if not rq(kind is not None, "read", "kind-looked-at", "what is done with the receiver does not depend on the chunk", w):
            continue
        v = vs[kind]
        if v != "Data":
            out.add(v)
            rq(not ins, "read", "final-not-put-back", f"the receiver is kept after the {v} chunk", w)
            continue
        # data: put back iff still registered
        ai = st.trace.index(aw[0])
        after = st.trace[ai:]
        looks = [ev for ev in after if ev[0] == "map" and ev[1] in ("senders", "metadata") and ev[2] in ("contains_key", "get")]
        if ins:
            out.add("put-back")
            m = ins[0]
            rq(ids(m[2][1]) and has(m[2][2], tev[4]), "read", "same-receiver", f"what is put back is {flow.show(m[2][2])} under {flow.show(m[2][1])}", w)
            ii = max(i for i, ev in enumerate(st.trace) if ev[0] == "map" and ev[1] == "receivers" and ev[2] == "insert")
            seen_l = [ev for ev in looks if present(st, ev) is True and ids(ev[3][1])]
            if rq(bool(seen_l), "read", "still-registered", "the receiver is put back without checking that the stream is still registered", w):
                li = st.trace.index(seen_l[-1])
                held = [l for l in ("senders", "receivers", "metadata") if holds(st.trace, l, li, ii)]
                rq(bool(held), "read", "checked-under-lock", "the stream can be closed between the check and putting the receiver back", w)
        else:
            out.add("gone")
            rq(any(present(st, ev) is False and ids(ev[3][1]) for ev in looks), "read", "kept-open", "the receiver of an open stream is dropped after a data chunk", w)
    need = {"unknown", "ended", "Done", "Error", "put-back"}
    rq(need <= out, "read", "outcomes", f"a read cannot end in {sorted(need - out)}", b.pretty)

    # ---- taking, closing, clearing
    b, e, ex = run(ctx, p, "take_receiver", F)
    seen.add(b.pretty)
    for st, r in ex:
        ms = muts(st)
        tev = [ev for ev in st.trace if ev[0] == "map" and ev[2] == "remove"]
        rq([m[:2] for m in ms] == [("receivers", "remove")] and same(ms[0][2][1], arg(b, 1)), "take", "removes", f"taking the receiver does {[m[:2] for m in ms]}", w_of(b, st, r))
        d = disc(st, tev[0][4]) if tev else None
        rq(bool(tev) and (same(deref(r), tev[0][4]) or (d == 0 and r[0] == "agg" and r[1].endswith("::None")) or (d == 1 and r[0] == "agg" and r[1].endswith("::Some") and has(r, tev[0][4]))),
           "take", "answer", f"take_receiver answers {flow.show(r)}", w_of(b, st, r))
    b, e, ex = run(ctx, p, "close_stream", F)
    seen.add(b.pretty)
    for st, r in ex:
        ms = muts(st)
        gone = {m[0] for m in ms if m[1] in ("remove", "remove_entry") and same(m[2][1], arg(b, 1))}
        absent = {ev[1] for ev in st.trace if ev[0] == "map" and ev[2] in ("contains_key", "get") and present(st, ev) is False and same(ev[3][1], arg(b, 1))}
        rq(gone | absent == set(three), "close", "all-records", f"closing a stream leaves {sorted(set(three) - gone - absent)}", w_of(b, st, r))
        rq(all(m[1] in ("remove", "remove_entry") and same(m[2][1], arg(b, 1)) for m in ms), "close", "only-own", f"closing a stream does {[m[:2] for m in ms]}", w_of(b, st, r))
    b, e, ex = run(ctx, p, "clear", F)
    seen.add(b.pretty)
    for st, r in ex:
        ms = muts(st)
        gone = {m[0] for m in ms if m[1] in ("clear", "drain")}
        rq(gone == set(three) and all(m[1] in ("clear", "drain") for m in ms), "clear", "all-records", f"clearing leaves {sorted(set(three) - gone)}; does {[m[:2] for m in ms]}", w_of(b, st, r))
    # ---- looking: has_sender is what tells the script that the client went away
    for name, role in (("has_sender", "senders"), ("get_stream_info", "metadata")):
        b, e, ex = run(ctx, p, name, F)
        for st, r in ex:
            looks = [ev for ev in st.trace if ev[0] == "map" and ev[1] == role and ev[2] in ("contains_key", "get")]
            w = w_of(b, st, r)
            if rq(len(looks) == 1 and same(looks[0][3][1], arg(b, 1)), "look", f"{name}-key", f"{name} looks at {[(ev[1], ev[2], flow.show(ev[3][1]) if len(ev[3]) > 1 else '') for ev in st.trace if ev[0] == 'map']}", w):
                pr = present(st, looks[0])
                if name == "has_sender":
                    t = e.truth(st, r)
                    rq(same(r, looks[0][4]) or (t is not None and t == pr) or (r[0] in ("isv",) and same(r[1], looks[0][4]) and r[2] == 1), "look", f"{name}-answer", f"{name} answers {flow.show(r)}", w)
                else:
                    rq(has(r, looks[0][4]) or pr is False, "look", f"{name}-answer", f"{name} answers {flow.show(r)}", w)
    # ---- nothing else touches the maps
    n = 0
    helpers = set()
    for b in p.bodies.values():
        if "::tests::" in b.pretty or not b.pretty.startswith("runtime::stream_manager::"):
            continue
        n += 1
        root = re.sub(r"(::\{closure#\d+\})+$", "", b.pretty)
        if b.pretty in seen or any(root == re.sub(r"(::\{closure#\d+\})+$", "", s) for s in seen):
            continue
        public = re.search(r"pub\s+(?:async\s+)?fn\s+" + re.escape(root.split("::")[-1]) + r"\b", p.unit.expanded)
        R = Rec(want_for(F), keep=lambda f: False, limit=2, call=arc_identity, inline=lambda x: x.pretty not in seen and not x.pretty.startswith(tuple(seen)))
        e = ctx.paths(p, b, R, unwind=False)
        bad = sorted({m[:2] for k, st, r in e.exits for m in muts(st)})
        if bad and not public:
            helpers.add(b.pretty)       # a private helper: judged inside the operations that call it
            continue
        rq(not bad, "nobody-else", b.pretty, f"{b.pretty} changes the registry: {bad}", b.pretty)
    ctx.floor("registry functions", n, 14)
    clone_rule(ctx, p, F, three)


def holds(trace, lock, i, j):
    """lock is held without a gap from event i to event j"""
    h = False
    for k, ev in enumerate(trace[:j + 1]):
        if ev[0] in ("lock", "unlock") and ev[1] == lock:
            h = ev[0] == "lock"
        if i <= k <= j and not h:
            return False
    return h


def arg_terms(b, fn, i):
    """predicate: is a term the i-th parameter of the (async) function"""
    if fn.endswith("}"):
        t = ("fld", arg(b, 0), str(i))
    else:
        t = arg(b, i)
    return lambda x: same(deref(x), t)


# ------------------------------------------------------------------------------------------ P20
class Forward:
    """typestate of a loop that takes items from a receiver and passes them on; kind: what the receiver yields"""

    def __init__(self, kind, vs, is_rx, sent, no_inline=None, closed=None):
        self.kind, self.vs, self.is_rx, self.sent, self.no_inline, self.bad = kind, vs, is_rx, sent, no_inline, {}
        self.n_recv = self.n_send = 0
        self.closed = closed

    def keep_fact(self, f):
        return True

    def inline(self, b):
        return not (self.no_inline and self.no_inline.search(b.pretty))

    def flag(self, key, msg, st):
        self.bad.setdefault(key, f"{msg}; under {flow.show_facts(st)[:300]}")

    def before(self, e, st, n, a):
        if re.search(r"Receiver::(recv|try_recv|recv_many|blocking_recv)$", n) and self.is_rx(a[0]):
            self.settle(e, st, False)

    def event(self, e, st, k, n, a, r):
        if k == "call" and re.search(r"Receiver::(recv|try_recv|recv_many|blocking_recv)$", n) and self.is_rx(a[0]):
            st.data = dict(st.data, rx=None, sent=())
            if not n.endswith("::recv"):
                self.flag("receive-kind", f"the source is read with {n}", st)
        elif k == "call" and n == "await" and flow.mentions(a[0], lambda x: isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("Receiver::recv")) and not self.sent(a[0], r):
            self.n_recv += 1
            st.data = dict(st.data, rx=r, sent=())
        elif k == "call" and n == "await":
            s = self.sent(a[0], r)
            if s:
                self.n_send += 1
                st.data = dict(st.data, sent=st.data.get("sent", ())[-3:] + ((s[0], s[1], r),))
        elif k == "call" and self.closed and self.closed(n, a):
            st.data = dict(st.data, closed=True)

    def classify(self, st):
        rx = st.data.get("rx")
        if rx is None:
            return None, None
        d = disc(st, rx)
        if d == 0:
            return "end", None
        if d is None:
            return "?", None
        x = ("fld", rx, "Some.0")
        k = disc(st, x)
        if k is None:
            return "?", None
        if self.kind == "result":
            return (("data", ("fld", x, "Ok.0")), ("error", ("fld", x, "Err.0")))[k]
        v = self.vs[k]
        return {"Data": "data", "Done": "done", "Error": "error"}[v], ("fld", x, v + ".0")

    def settle(self, e, st, end):
        cls, payload = self.classify(st)
        sent = st.data.get("sent", ())
        if cls is None:
            if not end:
                return
            cls = "none"
        if cls == "?" and not end:
            self.flag("looked-at", "an item is taken without looking at what it is", st)
            return
        shown = [(s[0], flow.show(s[1]) if s[1] else "") for s in sent]
        if cls == "data":
            if not (sent and sent[0][0] == "data" and same(deref(sent[0][1]), payload)):
                self.flag("forwarded", f"a data item is followed by {shown}, not by passing the same bytes on", st)
            elif len([s for s in sent if s[0] == "data"]) > 1:
                self.flag("forwarded-once", f"a data item is passed on as {shown}", st)
            elif len(sent) > 1 and disc(st, sent[0][2]) == 0 and not end:
                self.flag("order", f"a data item is passed on as {shown}", st)
            if end and sent and disc(st, sent[0][2]) != 1:
                self.flag("stops-early", "the loop ends although the item could be passed on", st)
        elif cls == "error":
            if not (sent and sent[0][0] == "error" and same(deref(sent[0][1]), payload)):
                self.flag("error-passed", f"an error is followed by {shown}", st)
            if any(s[0] == "data" for s in sent):
                self.flag("error-is-last", f"data follows an error: {shown}", st)
            if not end:
                self.flag("error-ends", "the source is read again after an error", st)
        elif cls == "end" and self.kind == "chunk":
            # the stream was closed before its final marker: the consumer must not take that for the end
            if not (sent and sent[0][0] == "error"):
                self.flag("cut-off", f"a stream closed before its final marker is followed by {shown}: it looks complete", st)
            if any(s[0] == "data" for s in sent):
                self.flag("end-is-clean", f"the end of the source is followed by {shown}", st)
        elif cls in ("end", "done"):
            if any(s[0] in ("data", "error") for s in sent):
                self.flag("end-is-clean", f"the end of the source is followed by {shown}", st)
        return cls, sent


def spawned(ctx, p, body, rule=None, **kw):
    """(state, async body, captured value) of every task a function spawns"""
    R = Rec(lambda e, st, k, n, a, r: ("spawn", a[0]) if k == "call" and re.search(r"(tokio::)?(task::)?(spawn|spawn_local)$|JoinSet::(spawn|spawn_local)$", n) else None, keep=lambda f: False)
    e = ctx.paths(p, body, R, unwind=False, **kw)
    out, seen = [], set()
    for k, st, r in e.exits:
        for ev in st.trace:
            if ev[0] != "spawn":
                continue
            fb = None
            for t in flow.walk(ev[1]):
                if isinstance(t, tuple) and len(t) == 5 and t[0] == "agg" and t[1].startswith("{"):
                    fb = e.closure_body(st, t)
                    if fb is not None:
                        if (fb.name, t) not in seen:
                            seen.add((fb.name, t))
                            out.append((st, fb, t))
                        break
    return e, out


def chunk_sent(t, r):
    """await of a chunk write: (class, payload)"""
    for x in flow.walk(t):
        if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("StreamManager::write_chunk") and len(x[2]) == 3:
            c = deref(x[2][2])
            if c[0] == "agg" and "StreamChunk::" in c[1]:
                v = c[1].split("::")[-1]
                return ({"Data": "data", "Done": "done", "Error": "error"}[v], c[3][0] if c[3] else None)
            return ("?", c)
    return None


def result_sent(t, r):
    for x in flow.walk(t):
        if isinstance(x, tuple) and x and x[0] == "call" and re.search(r"mpsc::.*Sender::send$", x[1]):
            c = deref(x[2][1])
            if c[0] == "agg" and c[1].endswith("::Ok"):
                return ("data", c[3][0])
            if c[0] == "agg" and c[1].endswith("::Err"):
                return ("error", c[3][0])
            return ("?", c)
    return None


def pump_rule(ctx, e_name, p, fb, st0, cap, kind, vs, sent, final, no_inline, closed=None):
    F = Forward(kind, vs, lambda t: True, sent, no_inline, closed)
    fb.parse()
    args = {fb.args[0]: cap} if cap is not None else None
    e = ctx.paths(p, fb, F, args=args, unwind=False)
    n = 0
    for k, st, r in e.exits:
        if k != "return":
            continue
        n += 1
        x = F.settle(e, st, True)
        if x is None:
            continue
        cls, s = x
        if final and cls in ("end", "done", "none", "?"):
            if not (s and s[-1][0] == "done"):
                F.flag("final-marker", f"the task ends after the source's {cls} having written {[q[0] for q in s]}: the reader never learns of the end", st)
        if final and cls == "error" and not [q for q in s if q[0] == "error"]:
            F.flag("final-marker", "the task ends after an error without passing it on", st)
        if not final and cls in ("none", "?") and closed and not st.data.get("closed"):
            F.flag("closed-closes", "the task ends because the consumer went away, without closing the stream", st)
        if not final and cls == "data" and closed and not st.data.get("closed"):
            F.flag("closed-closes", "the task ends because the consumer went away, without closing the stream", st)
    for key in ("receive-kind", "looked-at", "forwarded", "forwarded-once", "order", "stops-early", "error-passed", "error-is-last", "error-ends", "cut-off", "end-is-clean", "final-marker", "closed-closes"):
        if key == "final-marker" and not final or key == "closed-closes" and not closed or key == "cut-off" and kind != "chunk":
            continue
        ctx.require(key not in F.bad, f"pump-{e_name}", key, F.bad.get(key, ""), fb.pretty)
    ctx.require(F.n_recv and F.n_send and n, f"pump-{e_name}", "loops", f"{F.n_recv} receives, {F.n_send} sends, {n} ends seen", fb.pretty)
    return F


@check("P20", "path-sensitive dataflow over MIR: channel construction sites and a typestate of every forwarding loop",
       "Queue order and the bound inside one channel are tokio's; what is decided is that each stream has one bounded channel of the configured capacity and that forwarding loops pass every item on once, in order, and mark the end.")
def p20(ctx):
    """The only channel a stream gets must be tokio's bounded one with the manager's own capacity, which the constructor takes
    from its argument unchanged.  Every task that forwards a body (request body into a stream, stream into the host's response)
    is followed through all its paths: each received data item is passed on exactly once before the next is taken, an error is
    passed on first and ends the loop, the end is marked, and the loop stops early only when the other side is gone."""
    p = ctx.prog("scope")
    F = roles(p)
    b, e, ex = run(ctx, p, "create_stream", F)
    for st, r in ex:
        ch = [ev for ev in st.trace if ev[0] == "channel"]
        if ctx.require(len(ch) == 1 and ch[0][1] == "channel", "bounded", "one-bounded-channel", f"a stream is made with {[c[1] for c in ch]}", w_of(b, st, r)):
            ctx.require(same(deref(ch[0][2][0]), ("fld", arg(b, 0), F["capacity"])), "bounded", "capacity", f"its capacity is {flow.show(ch[0][2][0])}", w_of(b, st, r))
    n = 0
    for b in p.bodies.values():
        if not b.pretty.startswith("runtime::stream_manager::") or "::tests::" in b.pretty:
            continue
        n += 1
        for bb, _, t in [(x, y, z) for x, y, z in callers(p, r"mpsc::(?:\w+::)*(channel|unbounded_channel)$") if x is b]:
            ctx.require(mir.strip_generics(t[2]).endswith("::channel"), "bounded", "no-unbounded", f"{b.pretty} makes an unbounded channel", b.pretty)
    wb = p.by_pretty.get(f"{SM}::with_high_water_mark")
    if wb is None:
        raise Missing("fn:with_high_water_mark", "the constructor is gone")
    e = ctx.paths(p, wb, None, unwind=False)
    for k, st, r in e.exits:
        if k == "return":
            v = sub(r, 99, F["capacity"])
            ctx.require(v is not None and same(deref(v), arg(wb, 0)), "bounded", "configured", f"the configured capacity becomes {flow.show(v) if v else '?'}", wb.pretty)
    nb = p.by_pretty.get(f"{SM}::new")
    if nb is not None:
        e = ctx.paths(p, nb, None, unwind=False)
        for k, st, r in e.exits:
            if k == "return":
                v = sub(r, 99, F["capacity"])
                ctx.require(v is not None and 0 < (const_value(p, v) or 0) <= 4096, "bounded", "default", f"the default capacity is {flow.show(v) if v else '?'}", nb.pretty)
    vs = [v[0] for v in p.adt("runtime::stream_manager::StreamChunk")["variants"]]
    no = re.compile(r"StreamManager::write_chunk|StreamManager::close_stream")
    b = p.by_pretty.get(f"{SM}::pump_request_body")
    if b is None:
        raise Missing("fn:pump_request_body", "the request body pump is gone")
    e, sp = spawned(ctx, p, b)
    if ctx.require(len(sp) == 1, "pump-request", "spawned", f"the pump starts {len(sp)} tasks", b.pretty):
        st0, fb, cap = sp[0]
        ids = {flow.show(r) for k, st, r in e.exits if k == "return"}
        W = []
        def sent(t, r):
            s = chunk_sent(t, r)
            if s:
                for x in flow.walk(t):
                    if isinstance(x, tuple) and x and x[0] == "call" and x[1].endswith("StreamManager::write_chunk") and len(x[2]) == 3:
                        W.append(flow.show(deref(x[2][1])))
            return s
        pump_rule(ctx, "request", p, fb, st0, cap, "result", vs, sent, True, no)
        ctx.require(set(W) <= ids and W, "pump-request", "own-stream", f"the pump writes to {sorted(set(W))}, the stream handed out is {sorted(ids)}", fb.pretty)
    # ---- the response side lives in code the sandbox does not build
    q = ctx.prog("full")
    b = q.by_pretty.get("execution_helpers::read_response_object")
    if b is None:
        raise Missing("fn:read_response_object", "the response reader is gone")
    fwd = 0
    for fb in q.bodies.values():
        if fb.pretty.startswith("execution_helpers::") and re.search(r"Receiver::<\S*StreamChunk>::recv", fb.text) and "async" in fb.header:
            fwd += 1
            pump_rule(ctx, "response", q, fb, None, None, "chunk", vs, result_sent, False, no, closed=lambda n, a: n.endswith("StreamManager::close_stream"))
    ctx.floor("response forwarding tasks", fwd, 1)
    pa = ("arg", b.local_name(b.args[-1]))
    chs = 0
    for x, bb, t in callers(q, r"mpsc::(?:\w+::)*(channel|unbounded_channel)$"):
        if x.pretty.startswith("execution_helpers::"):
            chs += 1
            okc = mir.strip_generics(t[2]).endswith("::channel")
            op = t[3][0] if t[3] else None
            ctx.require(okc and op is not None and is_param(x, op), "bounded-response", x.pretty, "the response channel is not bounded by the caller's buffer size", x.pretty)
    ctx.floor("response channels", chs, 1)


def const_value(p, v):
    """integer behind a literal or a named constant of the crate"""
    if v[0] == "c":
        return v[1]
    if v[0] in ("const", "fn"):
        m = re.search(r"\bconst\s+" + re.escape(str(v[1]).split("::")[-1]) + r"\s*:\s*\w+\s*=\s*([\d_\s*+()a-z]+);", p.unit.expanded)
        x = re.sub(r"(?<=\d)(usize|u64|u32)|_", "", m.group(1)) if m else ""
        if re.fullmatch(r"[\d\s*+()]+", x):
            return eval(x, {"__builtins__": {}})
    return None


def is_param(b, op):
    """operand is (a copy of) a parameter of integer type"""
    if op[0] not in ("copy", "move"):
        return False
    base = op[1][0]
    for _ in range(6):
        if base in b.args:
            return True
        nxt = None
        for k in b.blocks:
            for s in b.block(k)[0]:
                if s[0] == "assign" and s[1] == (base, []) and s[2][0] == "use" and s[2][1][0] in ("copy", "move"):
                    nxt = s[2][1][1][0]
        if nxt is None:
            return False
        base = nxt
    return False
