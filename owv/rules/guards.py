"""P04 / P05: the wall-clock and the CPU-time guard."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *

TG = "security::timeout_guard::TimeoutGuard"
TERM = re.compile(r"v8::(Isolate|IsolateHandle)::terminate_execution$")
SPAWN = re.compile(r"std::thread::(Builder::spawn|spawn|Builder::spawn_unchecked|Builder::spawn_scoped)$")
SAMPLES = (1, 7, 50, 999, 1000, 1001, 1500, 30000, 61234, 300_000, 70_000_123, 2**32 + 77, 2**41 + 5)


def guard_type(p, name):
    d = [k for k in p.defs if k.endswith("::" + name)]
    if not d:
        raise Missing(f"type:{name}", f"type {name} not found")
    return d[0]


def role(ctx, p, ty, what, rx):
    fs = typed_fields(p, ty, lambda t: re.search(rx, t))
    if len(fs) != 1:
        raise Missing(f"role:{ty}:{what}", f"cannot tell which field of {ty} is the {what}: {fs}")
    return fs[0]


def method(p, ty, name, trait=None):
    mod, t = ty.rsplit("::", 1)
    n = f"{mod}::<{t} as {trait}>::{name}" if trait else f"{mod}::{t}::{name}"
    b = p.by_pretty.get(n)
    if b is None:
        raise Missing(f"fn:{n}", f"{n} not found")
    return b


def built(st, r, ty):
    return [t for t in flow.walk(r) if isinstance(t, tuple) and len(t) == 5 and t[0] == "agg" and t[1] == ty] if r else []


def fld(agg, name):
    return agg[3][agg[4].index(name)]


def flag_reader(ctx, p, ty, name, flag):
    b = method(p, ty, name)
    e = ctx.paths(p, b, Rec(lambda e, st, k, n, a, r: ("w", n, a, r) if atomic(n) in MUTATORS else None))
    for k, st, r in e.exits:
        if k == "return":
            # the value read from the shared flag, nothing else
            ok = r[0] == "call" and atomic(r[1]) == "load" and place_of(r[2][0])[-1] == flag
            ctx.require(ok and not st.trace, "report", f"{name}", f"{name} returns {flow.show(r)} instead of the shared flag" + (f" and writes {st.trace}" if st.trace else ""), b.pretty)


def timed_out(st, res):
    """does the path know that recv_timeout's result res is the timeout error: True/False/None"""
    d = st.facts.get(("disc", res))
    inner = st.facts.get(("disc", ("fld", res, "Err.0")))
    if d == 0:
        return False
    if d == 1 and inner == 0:
        return True
    if d == 1 and isinstance(inner, int):
        return False
    if isinstance(inner, tuple) and 0 in inner[1]:
        return False
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f[0] == "op" and f[1] in ("Eq", "Ne") and isinstance(v, bool) and res in (f[2], f[3]):
            o = f[3] if f[2] == res else f[2]
            if flow.mentions(o, lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] == "agg" and t[1].endswith("RecvTimeoutError::Timeout")):
                return v if f[1] == "Eq" else not v
        if isinstance(f, tuple) and f[0] == "op" and f[1] in ("Eq", "Ne") and isinstance(v, bool) and ("fld", res, "Err.0") in (f[2], f[3]):
            return v if f[1] == "Eq" else not v
    return None


@check("P04", "typestate / must-precede dataflow over MIR of constructor, watchdog closure and destructor",
       "Decides the ordering and branch structure on every path of the guard; trusts std::sync::mpsc::recv_timeout and thread::join.")
def p04(ctx):
    """All paths of the guard's constructor, of the closure it spawns and of its destructor are followed on MIR.
    Constructor: a zero limit spawns nothing, any other limit spawns exactly one watchdog whose receiver belongs to the
    stored sender and whose flag is the stored flag.  Watchdog: termination happens exactly on the expired arm of a wait
    bounded by the given limit, after the flag is set.  Destructor: whenever a watchdog exists it is cancelled and then joined."""
    p = ctx.prog("scope")
    ty = guard_type(p, "TimeoutGuard")
    tx = role(ctx, p, ty, "cancel sender", r"Sender<")
    jh = role(ctx, p, ty, "join handle", r"JoinHandle<")
    flag = role(ctx, p, ty, "flag", r"Arc<(\w+::)*(AtomicBool|Atomic<bool>)>")
    b = method(p, ty, "new")
    tms = [("arg", b.local_name(a)) for a in b.args if b.arg_types[a] in ("u64", "usize", "u32", "std::time::Duration")]
    if len(tms) != 1:
        raise Missing("role:limit", "the limit parameter of the constructor cannot be told")
    tms = tms[0]
    iso = [("arg", b.local_name(a)) for a in b.args if "IsolateHandle" in b.arg_types[a]]
    want = lambda e, st, k, n, a, r: ("spawn", n, a, r) if k == "call" and SPAWN.search(n) else (("term", n, a, r) if k == "call" and TERM.search(n) else None)
    e = ctx.paths(p, b, Rec(want, keep=lambda f: flow.mentions(f, lambda t: t == tms), call=arc_identity))
    nspawn = 0
    for k, st, r in e.exits:
        if k != "return":
            continue
        gs = built(st, r, ty)
        ctx.require(len(gs) == 1, "constructed", "new", "the constructor does not return one guard", b.pretty)
        if not gs:
            continue
        g = gs[0]
        spawns = [ev for ev in st.trace if ev[0] == "spawn"]
        z = zero(st, tms)
        ctx.require(not any(ev[0] == "term" for ev in st.trace), "no-early-termination", "new", "the constructor itself terminates the isolate", b.pretty)
        if not spawns:
            ctx.require(z is True, "disabled-only-when-zero", "new", "a guard without watchdog is built although the limit is not known to be zero", f"{b.pretty} under {flow.show_facts(st)}")
            ctx.require(fld(g, jh)[2] == 0 if fld(g, jh)[0] == "agg" else False, "disabled-guard", "handle", "a disabled guard carries a join handle", b.pretty)
            continue
        nspawn += 1
        ctx.require(z is False, "zero-disables", "new", "a watchdog is spawned although the limit may be zero", f"{b.pretty} under {flow.show_facts(st)}")
        ctx.require(len(spawns) == 1, "one-watchdog", "new", f"{len(spawns)} watchdogs are spawned", b.pretty)
        clo = [x for x in spawns[0][2] if x[0] == "agg" and x[1].startswith("{")]
        if not clo:
            raise Missing("watchdog-closure", "the spawned watchdog closure cannot be resolved")
        clo = clo[0]
        g_tx, g_jh, g_flag = fld(g, tx), fld(g, jh), fld(g, flag)
        ctx.require(has(g_jh, spawns[0][3]) and g_jh[2] == 1, "handle-stored", "new", "the watchdog's join handle is not kept in the guard", b.pretty)
        ch = [t for t in flow.walk(g_tx) if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and re.search(r"mpsc::(sync_)?channel$", t[1])]
        ctx.require(bool(ch) and g_tx[2] == 1 and any(flow.mentions(x, lambda t: t == ("fld", ch[0], "1")) for x in clo[3]), "channel-pair", "new",
                    "the sender kept in the guard does not belong to the receiver the watchdog waits on", b.pretty)
        wb = e.body_of_type(None, clo[1])
        if wb is None:
            raise Missing("watchdog-body", "the watchdog closure's body was not found")
        want2 = lambda e, st, k, n, a, r: (("wait", n, a, r) if re.search(r"mpsc::Receiver::(recv_timeout|recv_deadline)$", n) else ("term", n, a, r) if TERM.search(n)
                                           else ("flag", atomic(n), a, r) if atomic(n) in MUTATORS else ("sleep", n, a, r) if re.search(r"thread::(sleep|park)", n) else None) if k == "call" else None
        keep = lambda f: flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and "recv_" in t[1])
        e2 = ctx.paths(p, wb, Rec(want2, keep), args={wb.args[0]: clo})
        nterm = 0
        for k2, s2, r2 in e2.exits:
            if k2 != "return":
                continue
            tr = s2.trace
            waits = [ev for ev in tr if ev[0] == "wait"]
            terms = [i for i, ev in enumerate(tr) if ev[0] == "term"]
            w = f"{wb.pretty}: {[ev[0] for ev in tr]} under {flow.show_facts(s2)}"
            ctx.require(bool(waits), "waits", "watchdog", "a path of the watchdog never waits for the limit", w)
            if not waits:
                continue
            to = timed_out(s2, waits[-1][3])
            if terms:
                nterm += 1
                ctx.require(to is True, "terminate-only-on-expiry", "watchdog", "the watchdog terminates the isolate on a path where the wait did not time out", w)
                before = [ev for ev in tr[:terms[0]] if ev[0] == "flag"]
                ctx.require(bool(before) and before[-1][1] in ("store", "swap") and before[-1][2][1] == flow.TRUE and has(before[-1][2][0], g_flag),
                            "flag-before-terminate", "watchdog", "the shared triggered flag is not set before the isolate is terminated", w)
                ctx.require(len(terms) == 1 and (not iso or tr[terms[0]][2][0] == iso[0]), "terminates-own-isolate", "watchdog", "the watchdog does not terminate exactly the guarded isolate once", w)
            else:
                ctx.require(to is not True, "terminate-on-expiry", "watchdog", "the limit expires but the isolate is not terminated", w)
                ctx.require(not any(ev[0] == "flag" and ev[2][1:2] == (flow.TRUE,) for ev in tr), "flag-only-on-expiry", "watchdog", "the guard reports triggered although nothing was terminated", w)
            ctx.require(not any(ev[0] == "flag" and ev[2][1:2] == (flow.FALSE,) for ev in tr), "flag-sticky", "watchdog", "the watchdog clears the triggered flag", w)
            ctx.require(not any(ev[0] == "sleep" for ev in tr), "cancellable-wait", "watchdog", "the watchdog sleeps in a way that cancellation cannot interrupt", w)
            for ms in SAMPLES:
                d = evaluate(waits[0][2][1], {tms: ms if "Duration" not in b.arg_types[b.args[-1]] else ms * 10**6})
                if not ctx.require(d == ms * 10**6, "limit-honoured", "watchdog", f"for a limit of {ms} ms the watchdog waits {d} ns ({flow.show(waits[0][2][1])})", w):
                    break
        ctx.floor("expiry paths of the watchdog", nterm, 1)
    ctx.floor("constructor paths with a watchdog", nspawn, 1)
    # destructor
    db = method(p, ty, "drop", "Drop")
    me = ("arg", db.local_name(db.args[0]))
    h = ("fld", ("fld", me, jh), "Some.0")
    s = ("fld", ("fld", me, tx), "Some.0")
    on = has
    want3 = lambda e, st, k, n, a, r: (("join", a) if n.endswith("JoinHandle::join") and on(a[0], h) else ("cancel", a) if re.search(r"mpsc::(Sync)?Sender::(send|try_send)$", n) and on(a[0], s) else None) if k == "call" else None
    dr = lambda e, st, t, v, path: ("cancel", v) if "Sender<" in t and (v == s or v == ("fld", me, tx)) else None
    e3 = ctx.paths(p, db, Rec(want3, keep=lambda f: flow.mentions(f, lambda t: t == me), drops=dr))
    nj = 0
    for k, st, r in e3.exits:
        if k != "return":
            continue
        hasjh = st.facts.get(("disc", ("fld", me, jh)))
        hastx = st.facts.get(("disc", ("fld", me, tx)))
        ev = [x[0] for x in st.trace]
        w = f"{db.pretty}: {ev} under {flow.show_facts(st)}"
        if hasjh == 0:
            continue
        if hastx == 0:
            ctx.require("join" in ev or hasjh is None, "joins", "drop", "a watchdog may outlive its guard", w)
            continue
        ctx.require(ev.count("join") == 1, "joins", "drop", "the watchdog is not waited for when the guard is dropped: it can terminate the isolate afterwards", w)
        if "join" in ev:
            nj += 1
            ctx.require("cancel" in ev[:ev.index("join")], "cancel-before-join", "drop", "the watchdog is joined without being cancelled first", w)
    ctx.floor("joining paths of the destructor", nj, 1)
    flag_reader(ctx, p, ty, "was_triggered", flag)


# ------------------------------------------------------------------------------------------------ P05
def zero_ret(st, res):
    v = st.facts.get(res)
    if isinstance(v, int):
        return v == 0
    if isinstance(v, tuple) and 0 in v[1]:
        return False
    for f, b in st.facts.items():
        if isinstance(f, tuple) and f[0] == "op" and f[2] == res and isinstance(b, bool) and f[3][0] == "c":
            if f[3][1] == 0 and f[1] in ("Eq", "Ne"):
                return b == (f[1] == "Eq")
            if f[3][1] == 0 and f[1] in ("Lt", "Ge"):
                return b == (f[1] == "Ge")
            if f[3][1] == -1 and f[1] in ("Eq", "Ne"):
                return b != (f[1] == "Eq")
    return None


def timer_events(e, st, k, n, a, r):
    if k != "call":
        return None
    m = re.search(r"libc::timer_(create|settime|delete)$", n)
    if m:
        return (m.group(1), n, a, r)
    m = re.search(r"collections::(?:hash_map::|btree_map::)?(?:HashMap|BTreeMap)::(insert|remove|clear|retain|drain|remove_entry|entry)$", n)
    if m:
        return (m.group(1), n, a, r)
    if atomic(n) in ("store", "swap", "compare_exchange"):
        return ("flag", atomic(n), a, r)
    if TERM.search(n):
        return ("term", n, a, r)
    return None


def check_spec(ctx, ev, tms, where_, key):
    ctx.require(ev[2][1] == ("c", 0), "timer-relative", key, f"the timer is armed with flags {flow.show(ev[2][1])}: the limit does not count from now", where_)
    spec = ev[2][2]
    val, itv = sub(spec, 1, "it_value"), sub(spec, 0, "it_interval")
    sec, ns = sub(val, 0, "tv_sec"), sub(val, 1, "tv_nsec")
    for ms in SAMPLES:
        a, b = evaluate(sec, {tms: ms}) if sec else None, evaluate(ns, {tms: ms}) if ns else None
        if not ctx.require(a is not None and b is not None and a * 10**9 + b == ms * 10**6 and 0 <= b < 10**9, "timer-value", key,
                           f"for a limit of {ms} ms the timer is armed with {a} s {b} ns (sec = {flow.show(sec) if sec else None}, nsec = {flow.show(ns) if ns else None})", where_):
            break


@check("P05", "typestate over MIR: register / arm / disarm / unregister protocol on every path, signal handler lookup",
       "Decides the protocol order and argument flow; trusts the kernel's timers and signal delivery, and does not model signals already queued when a guard is dropped.")
def p05(ctx):
    """The constructor's, destructor's, reset's and signal thread's paths are followed on MIR with the events timer_create,
    timer_settime, timer_delete, registry insert/remove, flag writes and terminate.  The timer clock, the id carried by the
    signal, the registered flag and the armed value are tracked as terms; the armed value is compared with the limit."""
    p = ctx.prog("scope")
    ty = guard_type(p, "CpuEnforcer")
    tid = role(ctx, p, ty, "timer", r"timer_t$")
    eid = role(ctx, p, ty, "id", r"^(usize|u64|u32)$")
    flag = role(ctx, p, ty, "flag", r"Arc<(\w+::)*(AtomicBool|Atomic<bool>)>")
    b = method(p, ty, "new")
    tms = [("arg", b.local_name(a)) for a in b.args if b.arg_types[a] in ("u64", "usize", "u32")]
    if len(tms) != 1:
        raise Missing("role:limit", "the limit parameter of the constructor cannot be told")
    tms = tms[0]
    keep = lambda f: flow.mentions(f, lambda t: isinstance(t, tuple) and t and ((t[0] == "call" and len(t) == 4 and "timer_" in t[1]) or t == tms))
    e = ctx.paths(p, b, Rec(timer_events, keep, call=arc_identity))
    narm = 0
    idterm = None
    for k, st, r in e.exits:
        if k != "return":
            continue
        tr = st.trace
        ev = [x[0] for x in tr]
        w = f"{b.pretty}: {ev} under {flow.show_facts(st)}"
        created = [x for x in tr if x[0] == "create"]
        sets = [i for i, x in enumerate(tr) if x[0] == "settime"]
        ins = [i for i, x in enumerate(tr) if x[0] == "insert"]
        rem = [i for i, x in enumerate(tr) if x[0] in ("remove", "remove_entry")]
        dele = [i for i, x in enumerate(tr) if x[0] == "delete"]
        some = r[0] == "agg" and r[2] == 1
        z = zero(st, tms)
        if z is True:
            ctx.require(not some and not created and not ins, "zero-disables", "new", "a zero limit creates a timer", w)
            continue
        if not created:
            ctx.require(False, "created", "new", "a path with a non-zero limit creates no timer", w)
            continue
        cok = zero_ret(st, created[0][3])
        clock = created[0][2][0]
        ctx.require("CLOCK_THREAD_CPUTIME_ID" in flow.show(clock) or clock == ("c", 3), "thread-clock", "new", f"the timer runs on {flow.show(clock)}, not on the thread's CPU clock", w)
        sv = created[0][2][1]
        carried = sub(sub(sv, 0, "sigev_value"), 0, "sival_ptr")
        notify = sub(sv, 2, "sigev_notify")
        ctx.require("SIGEV_SIGNAL" in flow.show(notify) or notify == ("c", 0), "signal-notify", "new", f"the timer notifies by {flow.show(notify) if notify else None}", w)
        if cok is False:
            ctx.require(not some and not sets and len(ins) <= len(rem), "create-failure", "new", "after a failed timer creation a guard, an armed timer or a registration is left", w)
            continue
        ctx.require(bool(sets), "armed", "new", "the timer is created but never armed", w)
        if not sets:
            continue
        narm += 1
        ctx.require(bool(ins) and ins[0] < sets[0], "register-before-arm", "new", "the timer is armed before the guard is registered: an early signal finds no guard", w)
        if ins:
            iv = tr[ins[0]]
            ctx.require(iv[2][1] == carried, "id-carried", "new", f"the signal carries {flow.show(carried) if carried else None} but the guard is registered under {flow.show(iv[2][1])}", w)
            idterm = iv[2][1]
            u = idterm
            ctx.require(u[0] == "call" and atomic(u[1]) == "fetch_add" and u[2][0][0] in ("static", "ptr") and u[2][1][0] == "c" and u[2][1][1] != 0, "unique-id", "new", f"the registration id {flow.show(u)} is not drawn from a counter that advances", w)
        check_spec(ctx, tr[sets[0]], tms, w, "new")
        sok = zero_ret(st, tr[sets[-1]][3])
        if sok is False:
            ctx.require(not some, "arm-failure", "new", "a guard is returned although its timer could not be armed", w)
            ctx.require(len(dele) == 1 and bool(rem) and tr[rem[-1]][2][1] == (idterm), "arm-failure-cleanup", "new", "a guard whose timer could not be armed leaves its timer or registration behind", w)
        else:
            g = built(st, r, ty)
            ctx.require(len(g) == 1 and sok is True, "arm-result", "new", "the constructor succeeds without knowing that the timer was armed", w)
            ctx.require(not dele and not rem, "stays-armed", "new", "the timer or registration is removed again although the guard is returned", w)
            if g and ins:
                ctx.require(fld(g[0], eid) == idterm, "guard-id", "new", "the guard keeps another id than it registered", w)
                ctx.require(flow.mentions(tr[ins[0]][2][2], lambda t: t == fld(g[0], flag)), "flag-shared", "new", "the registered flag is not the one the guard reports", w)
    ctx.floor("arming paths", narm, 2)
    db = method(p, ty, "drop", "Drop")
    me = ("arg", db.local_name(db.args[0]))
    e = ctx.paths(p, db, Rec(timer_events, keep))
    for k, st, r in e.exits:
        if k == "return":
            d = [x for x in st.trace if x[0] == "delete" and x[2][0] == ("fld", me, tid)]
            u = [x for x in st.trace if x[0] in ("remove", "remove_entry") and x[2][1] == ("fld", me, eid)]
            w = f"{db.pretty}: {[x[0] for x in st.trace]}"
            ctx.require(len(d) == 1, "timer-deleted", "drop", f"dropping the guard deletes its timer {len(d)} times", w)
            ctx.require(len(u) == 1, "unregistered", "drop", f"dropping the guard removes its registration {len(u)} times", w)
    rb = p.by_pretty.get(ty.rsplit("::", 1)[0] + "::CpuEnforcer::reset")
    if rb is not None:
        t2 = [("arg", rb.local_name(a)) for a in rb.args if rb.arg_types[a] in ("u64", "usize", "u32")][0]
        e = ctx.paths(p, rb, Rec(timer_events, keep))
        for k, st, r in e.exits:
            if k != "return":
                continue
            tr = st.trace
            w = f"{rb.pretty}: {[x[0] for x in tr]}"
            si = [i for i, x in enumerate(tr) if x[0] == "settime"]
            fl = [i for i, x in enumerate(tr) if x[0] == "flag" and x[2][1] == flow.FALSE]
            ctx.require(bool(si) and bool(fl) and fl[-1] < si[0], "reset-order", "reset", "the flag is not cleared before the timer is re-armed: an immediate expiry would be lost", w)
            if si:
                check_spec(ctx, tr[si[0]], t2, w, "reset")
                ok = zero_ret(st, tr[si[-1]][3])
                ctx.require(ok is (r[2] == 0) if r[0] == "agg" else True, "reset-result", "reset", "re-arming fails silently", w)
    flag_reader(ctx, p, ty, "was_terminated", flag)
    handler_ready(ctx, p, ty, b)
    # the signal thread: the coroutine that waits for signals
    mod = ty.rsplit("::", 1)[0]
    hs = [x for n, x in p.by_pretty.items() if n.startswith(mod + "::") and x.is_coroutine and "terminate_execution" in deep_text(p, x, mod)]
    ctx.floor("signal handlers", len(hs), 1)
    nt = 0
    for hb in hs:
        def want(e, st, k, n, a, r):
            if k == "call" and re.search(r"(HashMap|BTreeMap)::(get|get_mut|remove|get_key_value|iter|values|values_mut|iter_mut|contains_key)$", n):
                return ("lookup", n, a, r)
            if k in ("lock", "unlock"):
                return (k, n)
            return timer_events(e, st, k, n, a, r)
        kp = lambda f: True
        e = ctx.paths(p, hb, OneRound(want, kp), max_states=40000)
        for tr, facts in e.rule.rounds:
            w = f"{hb.pretty}: {[x[0] for x in tr]}"
            terms = [i for i, x in enumerate(tr) if x[0] == "term"]
            looks = [x for x in tr if x[0] == "lookup"]
            look = [x for x in looks if not x[1].endswith("contains_key")]
            for x in looks:
                ctx.require(x[1].endswith(("::get", "::get_mut", "::remove", "get_key_value", "contains_key")) and flow.mentions(x[2][1], lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1].endswith("si_value")),
                            "lookup-by-signal-id", "handler", f"the handler does not look the guard up by the id the signal carries ({x[1].split('::')[-1]})", w)
            found = [facts.get(("disc", x[3])) for x in look]
            if terms:
                nt += 1
                t = tr[terms[0]]
                ctx.require(bool(look) and has(t[2][0], look[-1][3]), "own-isolate", "handler", "the terminated isolate is not the one registered for this signal", w)
                sw = [x for x in tr[:terms[0]] if x[0] == "flag"]
                ctx.require(bool(sw) and look and has(sw[-1][2][0], look[-1][3]) and flow.TRUE in sw[-1][2][1:3], "flag-before-terminate", "handler", "the guard's flag is not set before its isolate is terminated", w)
                lk = [i for i, x in enumerate(tr[:terms[0]]) if x[0] == "lookup" and (facts.get(("disc", x[3])) == 1 or facts.get(x[3]) is True)]
                free = [i for i, x in enumerate(tr[:terms[0]]) if lk and i > lk[-1] and x[0] == "unlock" and same(x[1], tr[lk[-1]][2][0])]
                lkd = [x for x in tr[:lk[-1]] if x[0] in ("lock", "unlock") and same(x[1], tr[lk[-1]][2][0])] if lk else []
                ctx.require(bool(lkd) and lkd[-1][0] == "lock" and not free, "terminated-while-registered", "handler", "the isolate is terminated after the registry is unlocked: a guard dropped in between no longer stops its signal, which terminates the script that runs on the isolate next", w)
                ctx.require(len(terms) == 1, "once", "handler", "one signal terminates more than once", w)
            else:
                sw = [x for x in tr if x[0] == "flag" and flow.TRUE in x[2][1:3]]
                already = [x for x in sw if facts.get(x[3]) is True or facts.get(("disc", x[3])) == 1]
                ctx.require(not (found and found[-1] == 1 and not already), "terminates", "handler", "a signal for a registered guard does not terminate its isolate", w)
        for k, st, r in e.exits:
            if k == "return":
                ctx.require(not any(x[0] in ("lookup", "term", "flag") for x in st.trace), "handler-lives", "handler", "the signal thread ends after handling a signal: no later CPU limit is enforced", f"{hb.pretty}: {[x[0] for x in st.trace]}")
    ctx.floor("terminating rounds of the handler", nt, 1)


INSTALL = re.compile(r"(signal_hook\w*::.*(SignalsInfo|Signals|SignalDelivery)::(with_exfiltrator|new|with_pipe)|signal_hook\w*::(\w+::)*register(_\w+)?|libc::.*::(sigaction|signal))$")


def handler_ready(ctx, p, ty, nb):
    """the process's signal handler is installed before a guard can be armed: an expiry without handler kills the process"""
    mod = ty.rsplit("::", 1)[0]

    def want(e, st, k, n, a, r):
        if k != "call":
            return None
        if INSTALL.search(n):
            return ("install", n, a, r)
        if SPAWN.search(n):
            return ("spawn", n, a, r)
        if re.search(r"::(recv|blocking_recv|recv_timeout)$|Barrier::wait$|Condvar::wait\w*$|JoinHandle::join$", n):
            return ("await", n, a, r)
        if re.search(r"Sender::(send|blocking_send)$|Condvar::notify_\w+$", n):
            return ("tell", n, a, r)
        if n.endswith("timer_settime"):
            return ("arm", n, a, r)
        return None
    starts = [x for n, x in p.by_pretty.items() if re.match(re.escape(mod) + r"::[A-Z_0-9]+::\{closure#\d+\}$", n)] + [nb]
    seen = 0
    for s in starts:
        e = ctx.paths(p, s, Rec(want, lambda f: False))
        for k, st, r in e.exits:
            tr = st.trace
            ev = [x[0] for x in tr]
            w = f"{s.pretty}: {ev}"
            if k != "return":
                continue
            if "install" in ev and "arm" not in ev[:ev.index("install")]:
                seen += 1
                continue
            for i, x in enumerate(tr):
                clo = [y for y in x[2] if y[0] == "agg" and y[1].startswith("{")] if x[0] == "spawn" else []
                wb = e.body_of_type(None, clo[0][1]) if clo else None
                if x[0] != "spawn" or (wb is not None and not any(INSTALL.search(n) for n in calls_of(p, wb, mod))):
                    continue
                if wb is None:
                    raise Missing("signal-thread", "the closure of a spawned thread cannot be resolved")
                seen += 1
                arm = ev.index("arm") if "arm" in ev else len(ev)
                aw = [y for y in tr[i + 1:arm] if y[0] == "await"]
                ctx.require(bool(aw), "handler-installed", "new", "a timer can fire before the signal thread has installed its handler: the signal kills the process", w)
                if not aw:
                    continue
                drops = lambda e, st, ty, val, path: ("tell", "drop", (val,), None) if re.search(r"mpsc::\w*Sender<|oneshot::Sender<", ty) else None
                e2 = ctx.paths(p, wb, OneRound(want, lambda f: False, drops, False), args={wb.args[0]: clo[0]}, max_states=20000)
                early = set()
                told = 0
                for tr2 in [s2.trace for k2, s2, r2 in e2.exits if k2 == "return"] + [t for t, _ in e2.rule.rounds]:
                    ev2 = [y[0] for y in tr2]
                    ii = ev2.index("install") if "install" in ev2 else len(ev2)
                    early |= {y[1] for y in tr2[:ii] if y[0] == "tell" and (y[1] != "drop" or "mpsc" in aw[0][1])}
                    told += "tell" in ev2[ii:] or any(y[0] == "await" for y in tr2[ii:])
                ctx.require(not early, "handler-installed", "thread", "the signal thread reports that it is ready before it has installed its handler", f"{wb.pretty}: {sorted(early)}")
                ctx.require(told > 0, "handler-installed", "told", "the signal thread never reports that its handler is installed", wb.pretty)
    ctx.floor("paths that install the signal handler", seen, 1)


def calls_of(p, b, mod):
    """callees of a body and of the functions and closures of its module that it reaches"""
    out, todo, seen = [], [b], set()
    while todo:
        x = todo.pop()
        if x.pretty in seen:
            continue
        seen.add(x.pretty)
        todo += [y for n, y in p.by_pretty.items() if n.startswith(x.pretty + "::{closure")]
        x.parse()
        for k in x.blocks:
            t = x.block(k)[1]
            if t[0] == "call":
                n = mir.strip_generics(t[2])
                out.append(n)
                y = p.by_pretty.get(n)
                if y is not None and y.pretty.startswith(mod):
                    todo.append(y)
    return out


def deep_text(p, b, mod):
    """text of a body and of the functions of its module that it calls"""
    out, todo, seen = [], [b], set()
    while todo:
        x = todo.pop()
        if x.pretty in seen:
            continue
        seen.add(x.pretty)
        out.append(x.text)
        todo += [y for n, y in p.by_pretty.items() if n.startswith(x.pretty + "::{closure")]
        x.parse()
        for k in x.blocks:
            t = x.block(k)[1]
            if t[0] == "call":
                y = p.by_pretty.get(mir.strip_generics(t[2]))
                if y is not None and y.pretty.startswith(mod):
                    todo.append(y)
    return "\n".join(out)


class OneRound(Rec):
    """an endless event loop: cuts the trace at every wait and collects the completed rounds"""

    def __init__(self, want, keep, drops=None, cut=True):
        super().__init__(want, keep, drops=drops)
        self.rounds, self.cut = [], cut

    def call(self, e, st, ci):
        if ci.path == "std::future::Future::poll" or ci.path.endswith("StreamExt::next") or re.search(r"::(recv|blocking_recv|wait|forever)$", ci.path):
            if st.trace:
                self.rounds.append((st.trace, dict(st.facts)))
                if self.cut:
                    st.trace = ()
        return None
