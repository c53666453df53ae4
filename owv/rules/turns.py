"""P12: turn-taking between the requests that share an isolate."""
import re
from .. import flow, mir, rustsrc
from ..check import check, Missing
from ..rlib import *

AW = "async_waiter::AsyncWaiter"
Q = re.compile(r"(?:collections::(?:vec_deque::)?VecDeque|vec::Vec|collections::LinkedList|collections::(?:binary_heap::)?BinaryHeap)::(\w+)$")
READS = {"len", "is_empty", "iter", "front", "back", "contains", "get", "capacity", "new", "with_capacity", "as_slices", "reserve"}
PUSH = {"push_back": "back", "push_front": "front", "push": "back"}
POP = {"pop_front": "front", "pop_back": "back", "pop": "back"}


def wants(flag, queue):
    def want(e, st, k, n, a, r):
        if k == "store":
            p = n
            while isinstance(p, tuple) and p[0] in ("fld", "idx"):
                if p[2] in (flag, queue) and mentions_self(p):
                    return ("assign", n, a)
                p = p[1]
            return None
        if k != "call":
            return None
        m = atomic(n)
        if m and a and mentions_field(a[0], flag):
            return ("atom", m, a, r)
        m = Q.search(n)
        if m and a and mentions_field(a[0], queue):
            return ("queue", m.group(1), a, r)
        if re.search(r"task::Waker::(wake|wake_by_ref)$", n):
            return ("wake", a[0], r)
        if re.search(r"std::mem::(take|swap|replace)$", n) and a and mentions_field(a[0], queue):
            return ("queue", "replaced", a, r)
    return want


def mentions_self(t):
    return flow.mentions(t, lambda x: x == ("arg", "self"))


def mentions_field(t, f):
    return flow.mentions(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == f)


def claim(ev, st):
    """did this atomic operation take the flag: True / False / None (unknown)"""
    _, m, a, r = ev
    if m in ("compare_exchange", "compare_exchange_weak", "compare_and_swap") and a[1:3] == (flow.FALSE, flow.TRUE):
        d = st.facts.get(("disc", r))
        if m == "compare_and_swap":
            return {False: True, True: False}.get(st.facts.get(r))
        if d == 0:
            return True
        if d == 1:
            if m.endswith("weak") and st.facts.get(("fld", r, "Err.0")) is not True:
                return "spurious"
            return False
    if m in ("swap", "fetch_or") and a[1] == flow.TRUE:
        return {False: True, True: False}.get(st.facts.get(r))
    return None


CLEARS = lambda ev: ev[0] == "atom" and ((ev[1] in ("store", "swap", "fetch_and") and ev[2][1] == flow.FALSE) or (ev[1] == "compare_exchange" and ev[2][1:3] == (flow.TRUE, flow.FALSE)))


@check("P12", "path-sensitive dataflow (typestate of flag and queue) over MIR of the turn lock and of every function that takes a turn",
       "Decides the order and branch structure of each operation and of each caller; the race between a refusal and a simultaneous release on another thread is outside, since all callers run on one thread.")
def p12(ctx):
    """Every path of the acquire and release operations is followed: a grant must come from one successful atomic claim of the
    free flag and touch nothing else, a refusal must queue exactly the caller's waker, a release must clear the flag and wake
    exactly the waker taken from the other end of the queue.  Then every function that takes a turn is followed to all of its
    exits: the turn is given back exactly once, and the isolate is locked only while the turn is held."""
    p = ctx.prog("scope")
    flag = typed_fields(p, AW, lambda t: re.search(r"AtomicBool|Atomic<bool>", t))
    queue = typed_fields(p, AW, lambda t: "Waker>" in t)
    if len(flag) != 1 or len(queue) != 1:
        raise Missing("role:AsyncWaiter", f"flag {flag} / queue {queue} of the turn lock cannot be told")
    flag, queue = flag[0], queue[0]
    keep = lambda f: True

    def go(name):
        b = p.by_pretty.get(f"{AW}::{name}")
        if b is None:
            raise Missing(f"fn:{name}", f"{AW}::{name} not found")
        R = Rec(wants(flag, queue), keep=keep, limit=4)
        e = ctx.paths(p, b, R, unwind=False)
        return b, e, [(st, r) for k, st, r in e.exits if k == "return"]

    b, e, ex = go("try_lock")
    ends, got = set(), set()
    cx = [("arg", b.local_name(a)) for a in b.args if "Context" in b.arg_types[a]]
    for st, r in ex:
        w = f"{b.pretty}: {[ev[:2] for ev in st.trace]} -> {flow.show(r)} under {flow.show_facts(st)}"
        t = e.truth(st, r)
        if not ctx.require(t is not None, "acquire", "result", "the answer of try_lock is not decided by the operations on the path", w):
            continue
        got.add(t)
        writes = [ev for ev in st.trace if ev[0] == "atom" and ev[1] in MUTATORS]
        # facts speak of the last execution of a call site
        claims = [None if ev in writes[i + 1:] else claim(ev, st) for i, ev in enumerate(writes)]
        pushes = [ev for ev in st.trace if ev[0] == "queue" and ev[1] in PUSH]
        others = [ev for ev in st.trace if (ev[0] == "queue" and ev[1] not in PUSH and ev[1] not in READS) or ev[0] in ("wake", "assign")]
        ctx.require(not others, "acquire", "touches", f"try_lock also does {[(x[0], x[1]) for x in others]}", w)
        if t:
            ctx.require(claims[-1:] == [True] and all(c is False or c in ("spurious", None) and ev[1].endswith("weak") for c, ev in zip(claims[:-1], writes)), "acquire", "granted-when-free",
                        "a turn is granted without one successful atomic claim of the free flag", w)
            ctx.require(not pushes, "acquire", "granted-not-queued", "a granted caller is queued as well", w)
        else:
            ctx.require(claims[-1:] in ([], [False]) and all(c is False or c in ("spurious", None) and ev[1].endswith("weak") for c, ev in zip(claims[:-1], writes)) and bool(claims or [1 for ev in st.trace if ev[0] == "atom" and ev[1] == "load" and st.facts.get(ev[3]) is True]),
                        "acquire", "refused-when-taken", "a caller is refused although the flag was not seen taken, or after taking it", w)
            ctx.require(len(pushes) == 1, "acquire", "refused-queued", f"a refused caller is queued {len(pushes)} times", w)
            for ev in pushes:
                ends.add(PUSH[ev[1]])
                v = ev[2][1]
                ctx.require(any(has(v, c) for c in cx) and not flow.mentions(v, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] == "call" and x[1].endswith("noop")),
                            "acquire", "own-waker", f"the queued waker is {flow.show(v)}", w)
    ctx.require(got == {True, False}, "acquire", "outcomes", f"try_lock can only answer {sorted(got)}", b.pretty)
    ctx.require(len(ends) == 1, "order", "push-end", f"waiters are queued at {sorted(ends)}", b.pretty)
    pe = next(iter(ends), "back")

    b, e, ex = go("unlock")
    woke = 0
    for st, r in ex:
        w = f"{b.pretty}: {[ev[:2] for ev in st.trace]} under {flow.show_facts(st)}"
        tr = list(st.trace)
        atoms = [i for i, ev in enumerate(tr) if ev[0] == "atom" and ev[1] in MUTATORS]
        ctx.require(len(atoms) == 1 and CLEARS(tr[atoms[0]]), "release", "frees", f"a release performs {[(tr[i][1], [flow.show(x) for x in tr[i][2][1:2]]) for i in atoms]} on the flag", w)
        q = [i for i, ev in enumerate(tr) if ev[0] == "queue" and ev[1] not in READS]
        pops = [i for i in q if tr[i][1] in POP]
        wk = [i for i, ev in enumerate(tr) if ev[0] == "wake"]
        ctx.require(len(q) == len(pops) and not any(ev[0] == "assign" for ev in tr), "release", "touches", f"a release also does {[tr[i][1] for i in q if i not in pops]} to the queue", w)
        if not ctx.require(len(pops) <= 1, "release", "takes-one", f"a release takes {len(pops)} waiters off the queue", w):
            continue
        if pops:
            ctx.require(POP[tr[pops[0]][1]] != pe, "order", "pop-end", f"waiters are queued at the {pe} and taken from the {POP[tr[pops[0]][1]]}", w)
            d = st.facts.get(("disc", tr[pops[0]][3]))
        else:
            # no waiter taken: only if the queue was seen empty
            emp = [ev for ev in tr if ev[0] == "queue" and ((ev[1] == "is_empty" and st.facts.get(ev[3]) is True) or (ev[1] == "len" and st.facts.get(ev[3]) == 0) or (ev[1] in ("front", "back") and st.facts.get(("disc", ev[3])) == 0))]
            ctx.require(bool(emp), "release", "looks", "a release does not look at the queue", w)
            d = 0
        if d == 0:
            ctx.require(not wk, "release", "wakes-none", "a waker is woken although none was taken from the queue", w)
        elif d == 1:
            woke += 1
            ok = len(wk) == 1 and place_of(tr[wk[0]][1]) == ("fld", tr[pops[0]][3], "Some.0")
            ctx.require(ok, "release", "wakes-first", f"a release wakes {[flow.show(tr[i][1]) for i in wk]} instead of exactly the waiter it took", w)
            ctx.require(not wk or not atoms or wk[0] > atoms[0], "release", "free-before-wake", "the waiter is woken before the lock is free", w)
        else:
            ctx.require(False, "release", "decides", "a waiter is taken but never examined", w)
    ctx.require(woke > 0, "release", "wakes", "no path of a release wakes a waiter", b.pretty)

    b, e, ex = go("new")
    for st, r in ex:
        gs = [t for t in flow.walk(r) if isinstance(t, tuple) and len(t) == 5 and t[0] == "agg" and t[1] == AW]
        ok = len(gs) == 1
        if ok:
            g = gs[0]
            v = g[3][g[4].index(flag)]
            qv = g[3][g[4].index(queue)]
            ok = (v == flow.FALSE or (v[0] in ("default",)) or (v[0] == "call" and v[1].endswith("default"))) and not st.trace
        ctx.require(ok, "initial", "free", f"a new turn lock is {flow.show(r)}", b.pretty)
    b, e, ex = go("is_free")
    for st, r in ex:
        t = e.truth(st, r)
        lo = [ev for ev in st.trace if ev[0] == "atom"]
        ok = len(lo) == 1 and lo[0][1] == "load" and (r == ("un", "Not", lo[0][3]) or (t is not None and st.facts.get(lo[0][3]) is (not t)) or r in (("op", "Eq", lo[0][3], flow.FALSE), ("op", "Ne", lo[0][3], flow.TRUE)))
        ctx.require(ok and len(st.trace) == 1, "reader", "is_free", f"is_free answers {flow.show(r)}", b.pretty)
    b, e, ex = go("queue_len")
    for st, r in ex:
        ok = len(st.trace) == 1 and st.trace[0][0] == "queue" and st.trace[0][1] == "len" and r == st.trace[0][3] or (len(st.trace) == 1 and st.trace[0][:2] == ("queue", "iter") and r == ("call", "std::iter::Iterator::count", (st.trace[0][3],), r[3] if len(r) > 3 else None))
        ctx.require(ok, "reader", "queue_len", f"queue_len answers {flow.show(r)}", b.pretty)
    # nothing else changes flag or queue
    main = {f"{AW}::{n}" for n in ("try_lock", "unlock", "new", "is_free", "queue_len")}
    for b in list(p.bodies.values()):
        if not b.args or b.pretty in main or "{closure" in b.pretty or "AsyncWaiter" not in b.arg_types[b.args[0]] or "::tests::" in b.pretty:
            continue
        cs = {c.pretty.split("::{closure")[0] for c, _, t in callers(p, re.escape(b.pretty) + "$")}
        if cs and cs <= main:
            continue
        R = Rec(wants(flag, queue), keep=keep, limit=2)
        e = ctx.paths(p, b, R)
        bad = {ev[1] for k, st, r in e.exits for ev in st.trace if (ev[0] == "atom" and ev[1] in MUTATORS) or (ev[0] == "queue" and ev[1] not in READS) or ev[0] == "assign"}
        ctx.require(not bad, "touches", b.pretty.split("::")[-1], f"{b.pretty} changes the turn lock outside acquire and release: {sorted(map(str, bad))}", b.pretty)
    turns(ctx)


LOCKV8 = re.compile(r"LockerManagedIsolate::lock$|v8::Locker::new$")


def turns(ctx):
    """every function that takes a turn gives it back exactly once on every way out"""
    p = ctx.prog("full")
    takers = []
    for b, bb, t in callers(p, r"AsyncWaiter::try_lock$"):
        if b.pretty.startswith(AW) or "::tests::" in b.pretty:
            continue
        if b not in takers:
            takers.append(b)
    for b, bb, t in callers(p, r"AsyncWaiter::unlock$"):
        if not b.pretty.startswith(AW) and "::tests::" not in b.pretty and b not in takers:
            # a helper may release on behalf of a taker; analysed where it is called
            cs = {c for c, _, _ in callers(p, re.escape(b.pretty) + "$")} or {t for t in takers if b.pretty.startswith(t.pretty + "::{closure")}
            ctx.require(bool(cs), "turn", f"stray-unlock:{b.pretty}", "the turn is released by code that never takes it", b.pretty)
    ctx.floor("functions taking a turn", len(takers), 5)
    for b in takers:
        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            if n.endswith("AsyncWaiter::try_lock"):
                return ("take", a[0], r)
            if n.endswith("AsyncWaiter::unlock"):
                return ("give", a[0], r)
            if LOCKV8.search(n):
                return ("isolate", n.split("::")[-2], r)
        R = Rec(want, keep=lambda f: flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1].endswith("try_lock")) or (isinstance(f, tuple) and f[0] == "disc" and flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and "waiter" in str(t[2]))), limit=3)
        small = {x for x in (c.pretty for c in p.bodies.values()) if x.endswith("try_lock_v8")}
        hb = {c.pretty for c, _, _ in callers(p, r"AsyncWaiter::(try_lock|unlock)$")}
        R.inline = lambda x: x.pretty in small or (x.pretty in hb and not x.pretty.startswith(AW)) or x.pretty.startswith(b.pretty + "::{closure")
        e = ctx.paths(p, b, R)
        w0 = re.sub(r"::\{closure#\d+\}", "", b.pretty).split("::")[-1]
        n = 0
        for k, st, r in e.exits:
            if k != "return":
                continue
            n += 1
            tr = st.trace
            w = f"{b.pretty}: {[ev[0] for ev in tr]} -> {flow.show(r)[:80]}"
            takes = [(i, ev) for i, ev in enumerate(tr) if ev[0] == "take"]
            gives = [i for i, ev in enumerate(tr) if ev[0] == "give"]
            held = [i for i, ev in takes if st.facts.get(ev[2]) is True]
            refused = [i for i, ev in takes if st.facts.get(ev[2]) is False]
            ctx.require(len(held) + len(refused) == len(takes), "turn", f"{w0}:checked", "the answer of try_lock is not examined", w)
            ctx.require(len(gives) == len(held), "turn", f"{w0}:given-back", f"the turn is taken {len(held)} times and given back {len(gives)} times on a path", w)
            ctx.require(not held or not gives or gives[-1] > held[-1], "turn", f"{w0}:order", "the turn is given back before it is taken", w)
            iso = [i for i, ev in enumerate(tr) if ev[0] == "isolate"]
            if refused and not held:
                ctx.require(not iso, "turn", f"{w0}:refused-no-lock", "the isolate is locked although the turn was refused", w)
                ctx.require(r is not None and r[0] == "agg" and r[1].endswith("Poll::Pending"), "turn", f"{w0}:refused-waits", "a refused request does not wait", w)
            if held:
                ctx.require(all(i > held[0] for i in iso), "turn", f"{w0}:turn-before-lock", "the isolate is locked before the turn is taken", w)
                ctx.require(all(i < gives[-1] for i in iso) if gives else True, "turn", f"{w0}:lock-in-turn", "the isolate is locked after the turn was given back", w)
        ctx.require(n > 0, "turn", f"{w0}:exits", "no way out was found", b.pretty)
