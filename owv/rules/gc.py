"""P08-P11: external-memory guards, the JS lock, deferred destruction, memory tracing."""
import re
from fractions import Fraction
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .guards import guard_type, role, method, built, fld

ADJ = re.compile(r"v8::\w+::adjust_amount_of_external_allocated_memory$")
ARC = r"Arc<(\w+::)*(AtomicI64|Atomic<i64>)>"


def names(t, rx):
    return flow.mentions(t, lambda x: isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], str) and re.search(rx, x[1]))


def zeros(st):
    """linear forms known to be zero on a path"""
    out = []
    for f, v in st.facts.items():
        if not isinstance(f, tuple):
            continue
        if f[0] == "op" and isinstance(v, bool) and (f[1], v) in (("Eq", True), ("Ne", False)):
            out.append(ladd(lin(f[2]), lin(f[3]), -1))
        elif isinstance(v, int) and not isinstance(v, bool) and f[0] not in ("disc", "isv"):
            out.append(ladd(lin(f), {None: v} if v else {}, -1))
    bound = {}
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f[0] == "op" and f[1] in ("Lt", "Le", "Gt", "Ge") and isinstance(v, bool):
            for x, c, sw in ((f[2], f[3], False), (f[3], f[2], True)):
                if c[0] == "c" and isinstance(c[1], int):
                    op = f[1] if not sw else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[f[1]]
                    op = op if v else {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op]
                    lo, hi = bound.get(x, (None, None))
                    if op in ("Lt", "Le"):
                        n = c[1] - (op == "Lt")
                        hi = n if hi is None else min(hi, n)
                    else:
                        n = c[1] + (op == "Gt")
                        lo = n if lo is None else max(lo, n)
                    bound[x] = (lo, hi)
    for x, (lo, hi) in bound.items():
        if lo is not None and lo == hi:
            out.append(ladd(lin(x), {None: lo} if lo else {}, -1))
    return [z for z in out if z]


def is_zero(d, zs):
    """d is a linear combination of the forms that are zero"""
    if not d:
        return True
    syms = sorted({s for z in zs for s in z} | set(d), key=repr)
    rows = [[Fraction(z.get(s, 0)) for s in syms] for z in zs]
    v = [Fraction(d.get(s, 0)) for s in syms]
    piv = []
    for c in range(len(syms)):
        r = next((i for i in range(len(piv), len(rows)) if rows[i][c] != 0), None)
        if r is None:
            continue
        k = len(piv)
        rows[k], rows[r] = rows[r], rows[k]
        rows[k] = [x / rows[k][c] for x in rows[k]]
        for i in range(len(rows)):
            if i != k and rows[i][c] != 0:
                m = rows[i][c]
                rows[i] = [x - m * y for x, y in zip(rows[i], rows[k])]
        piv.append(c)
    for k, c in enumerate(piv):
        if v[c] != 0:
            m = v[c]
            v = [x - m * y for x, y in zip(v, rows[k])]
    return not any(v)


def ledger_events(e, st, k, n, a, r):
    if k != "call":
        return None
    if ADJ.search(n):
        return ("v8", a[0], a[1])
    op = atomic(n)
    if op in MUTATORS:
        return ("acc", op, place_of(a[0]), a[1] if len(a) > 1 else None, r)
    if n.endswith("Arc::ptr_eq"):
        return ("ptr_eq", n, a, r)


def equal(st, a, b):
    """two accumulators known to be the same one on a path"""
    if a == b:
        return True
    for ev in st.trace:
        if ev[0] == "ptr_eq" and st.facts.get(ev[3]) is True and {place_of(x) for x in ev[2]} == {a, b}:
            return True
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f[0] == "op" and (f[1], v) in (("Eq", True), ("Ne", False)) and {place_of(f[2]), place_of(f[3])} == {a, b}:
            return True
    return False


class Ledger:
    def __init__(self, ctx, p):
        self.p, self.ctx = p, ctx
        self.g = guard_type(p, "ExternalMemoryGuard")
        self.amount = role(ctx, p, self.g, "amount", r"^i64$")
        self.acc = role(ctx, p, self.g, "accumulator", ARC)
        self.cur = guard_type(p, "CurrentIsolateState")
        self.ref = guard_type(p, "JsLockRef")
        self.lock = guard_type(p, "JsLock")
        f = lambda ty, rx: role(ctx, p, ty, rx, rx)
        self.iso = {t: f(t, r"v8::(Owned)?Isolate") for t in (self.cur, self.ref, self.lock)}
        self.pend = {t: f(t, ARC) for t in (self.cur, self.ref, self.lock)}
        self.rule = Rec(ledger_events, keep=lambda f: True)
        self.rule.remember = True

    def tls(self, t):
        return flow.mentions(t, lambda x: isinstance(x, tuple) and x and x[0] == "tls")

    def current(self, st):
        """is an isolate known to be locked on this path: 1 / 0 / None"""
        for f, v in st.facts.items():
            if isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "tls" and isinstance(v, int):
                return v
        return None

    def isolate_owner(self, t):
        """the state record whose isolate is adjusted"""
        if t[0] == "ptr":
            t = t[1]
        return t[1] if t[0] == "fld" and t[2] in self.iso.values() else None


@check("P08", "path-sensitive dataflow over MIR: symbolic ledger of reported bytes against an inductive invariant",
       "Decides the arithmetic and the addressee on every path of every method of the guard; trusts V8's counter and that one accumulator exists per isolate.")
def p08(ctx):
    """Invariant: a guard with a captured isolate has reported exactly its amount to that isolate, one without has reported
    nothing.  For every method, on every path, the bytes reported (V8 call or atomic add to the accumulator) must equal the
    change of that invariant, addressed to the captured isolate; the value wrapper's amount follows the value's size."""
    p = ctx.prog("scope")
    L = Ledger(ctx, p)
    mod = L.g.rsplit("::", 1)[0]
    n = 0
    short = L.g.split("::")[-1]
    for pretty, b in sorted(p.by_pretty.items()):
        if not (pretty.startswith(L.g + "::") or re.match(rf"{re.escape(mod)}::<{short} as ", pretty)) or "{closure" in pretty or " as std::fmt::" in pretty:
            continue
        b.parse()
        name = pretty.rsplit("::", 1)[-1]
        ret = b.locals.get("0", b.locals.get(0, ""))
        has_self = bool(b.args) and re.search(rf"\b{short}\b", b.arg_types[b.args[0]])
        builds = re.search(rf"\b{short}\b", ret) or ret == "Self"
        if not has_self and not builds:
            continue
        drop = name == "drop"
        e = ctx.paths(p, b, L.rule)
        me = ("arg", b.local_name(b.args[0])) if has_self else None
        for k, st, r in e.exits:
            if k != "return":
                continue
            n += 1
            w = f"{pretty}: {[x[:2] for x in st.trace if x[0] != 'ptr_eq']} under {flow.show_facts(st)}"
            a0 = {} if not me else lin(("fld", me, L.amount))
            acc0 = flow.NONE if not me else ("fld", me, L.acc)
            if drop:
                a1, acc1 = {}, flow.NONE
            elif me:
                a1 = lin(st.heap.get(("fld", me, L.amount), ("fld", me, L.amount)))
                acc1 = st.heap.get(("fld", me, L.acc), ("fld", me, L.acc))
                if me in st.heap:
                    a1, acc1 = lin(fld(st.heap[me], L.amount)), fld(st.heap[me], L.acc)
            else:
                g = built(st, r, L.g)
                if len(g) != 1:
                    ctx.require(False, "constructs", name, f"{name} does not return one guard", w)
                    continue
                a1, acc1 = lin(fld(g[0], L.amount)), fld(g[0], L.acc)
            acc1 = e.strip(st, acc1)
            R, bad = {}, None
            owners = []
            for ev in st.trace:
                if ev[0] == "v8":
                    R = ladd(R, lin(ev[2]))
                    owners.append(("v8", L.isolate_owner(ev[1])))
                elif ev[0] == "acc":
                    if ev[1] not in ("fetch_add", "fetch_sub"):
                        bad = ev[1]
                    else:
                        R = ladd(R, lin(ev[3]), 1 if ev[1] == "fetch_add" else -1)
                    owners.append(("acc", ev[2]))
            ctx.require(bad is None, "accumulated", name, f"{name} uses {bad} on the shared accumulator: concurrent changes are lost", w)
            zs = zeros(st)
            for case in (0, 1):
                d0 = st.data.get(("was", acc0), e.lookup_disc(st, acc0))
                d1 = e.lookup_disc(st, acc1) if acc1 != acc0 else d0
                if isinstance(d0, int) and d0 != case:
                    continue
                had = case
                now = d1 if isinstance(d1, int) else (case if acc1 == acc0 else None)
                if drop:
                    now = 0
                if now is None:
                    ctx.require(False, "accumulator-known", name, f"cannot tell whether the guard has an isolate after {name}: {flow.show(acc1)}", w)
                    continue
                diff = ladd(ladd(a1 if now else {}, a0 if had else {}, -1), R, -1)
                if not ctx.require(is_zero(diff, zs), "ledger", f"{name}:{had}{now}",
                                   f"{name} on a guard {'with' if had else 'without'} isolate reports {show_lin(R)}, its due changes by {show_lin(ladd(a1 if now else {}, a0 if had else {}, -1))}", w):
                    break
            # a guard that has reported to one isolate is not moved to another
            if not drop and me and acc1 != acc0 and st.data.get(("was", acc0), e.lookup_disc(st, acc0)) != 0 and e.lookup_disc(st, acc1) != 0:
                new = acc1[3][0] if acc1[0] == "agg" and acc1[2] == 1 else ("fld", acc1, "Some.0")
                ctx.require(equal(st, place_of(new), ("fld", acc0, "Some.0")), "moved", name, f"{name} ties a guard that has reported to one isolate to {flow.show(new)}", w)
            # addressee
            mine = {("fld", acc0, "Some.0"), ("fld", acc1, "Some.0")}
            if acc1[0] == "agg" and acc1[2] == 1:
                mine.add(acc1[3][0])
            for kind, o in owners:
                if kind == "acc":
                    ctx.require(o in mine or any(same(o, x) for x in mine), "addressee", f"{name}:deferred", f"{name} defers a change to {flow.show(o)}, which is not the guard's accumulator", w)
                else:
                    ok = False
                    if o is not None:
                        pf = {("fld", o, x) for x in L.pend.values()}
                        ok = bool(pf & mine) or any(equal(st, x, y) for x in pf for y in mine)
                    ctx.require(ok, "addressee", f"{name}:direct", f"{name} reports to the locked isolate without knowing that it is the guard's isolate", w)
            # a guard built under a lock belongs to that isolate
            if not me:
                if acc1 == flow.NONE and not is_zero(a1, zs):
                    ctx.require(L.current(st) == 0, "captures", name, f"{name} under a lock builds a guard that reports nothing", w)
                if acc1[0] == "agg" and acc1[2] == 1:
                    ctx.require(acc1[3][0][0] == "fld" and acc1[3][0][2] in L.pend.values() and L.tls(acc1[3][0]), "captures", f"{name}:which", f"{name} captures {flow.show(acc1[3][0])}, not the current isolate's accumulator", w)
                if b.args and builds:
                    ctx.require(is_zero(ladd(a1, lin(("arg", b.local_name(b.args[0]))), -1), zs), "amount-kept", name, f"{name} keeps {show_lin(a1)} as its amount", w)
                elif builds:
                    ctx.require(is_zero(a1, zs), "amount-kept", name, f"{name} starts with amount {show_lin(a1)}", w)
            elif name in ("adjust", "set") and len(b.args) == 2:
                x = lin(("arg", b.local_name(b.args[1])))
                want = ladd(a0, x) if name == "adjust" else x
                ctx.require(is_zero(ladd(a1, want, -1), zs), "amount-kept", name, f"{name} leaves the amount at {show_lin(a1)} instead of {show_lin(want)}", w)
            elif name == "amount":
                ctx.require(is_zero(ladd(lin(r), a0, -1), zs), "amount-read", name, f"amount() returns {flow.show(r)}", w)
            elif not drop:
                ctx.require(acc1 == acc0 or R or is_zero(ladd(a1, a0, -1), zs), "amount-kept", name, f"{name} changes the amount silently", w)
    ctx.floor("paths through the guard's methods", n, 12)
    tracked(ctx, p, L)
    # a guard's destructor is what takes its amount back
    for kind in ("scope", "full"):
        q = ctx.prog(kind)
        for b, k, t in [x for rx in (r"mem::forget$", r"ManuallyDrop::new$", r"Box::leak$", r"Box::into_raw$") for x in callers(q, rx)]:
            ty = " ".join(b.locals.get(op[1][0], "") for op in t[3] if op[0] in ("copy", "move")) + t[2]
            ctx.require(not re.search(r"\bExternalMemoryGuard\b|\bTracked<", ty), "never-forgotten", b.pretty, f"{b.pretty} keeps a guard's destructor from running: what it reported is never taken back", where(b, t[-1]))


def tracked(ctx, p, L):
    """Tracked<T>: the guard's amount is the size of the wrapped value"""
    ty = guard_type(p, "Tracked")
    gf = role(ctx, p, ty, "guard", r"ExternalMemoryGuard$")
    vf = [f[0] for f in p.adt(ty)["variants"][0][1] if f[0] != gf]
    if len(vf) != 1:
        raise Missing("role:tracked", "the tracked value cannot be told")
    vf = vf[0]
    own = lambda e, st, k, n, a, r: ("guard", n.split("::")[-1], a, r) if k == "call" and re.search(r"ExternalMemoryGuard::(new|empty|adjust|set)$", n) else None
    stop = lambda b: not b.pretty.startswith(L.g) and "js_lock" not in b.pretty and not b.pretty.endswith("external_memory_size")
    size = lambda t, v: t[0] == "call" and t[1].endswith("external_memory_size") and place_of(t[2][0]) == v
    for fn, v in (("new", None), ("update_size", "self")):
        b = method(p, ty, fn)
        a = ("arg", b.local_name(b.args[0]))
        val = a if v is None else ("fld", a, vf)
        e = ctx.paths(p, b, Rec(own, inline=stop))
        for k, st, r in e.exits:
            if k != "return":
                continue
            ev = [x for x in st.trace if x[0] == "guard"]
            w = f"{b.pretty}: {[x[1] for x in ev]}"
            if v is None:
                g = sub(r, 0, gf)
                ok = len(ev) == 1 and ev[0][1] == "new" and size(ev[0][2][0], val) and g == ev[0][3]
                ok = ok or (len(ev) == 2 and ev[0][1] == "empty" and ev[1][1] in ("set", "adjust") and size(ev[1][2][1], val))
            else:
                ok = len(ev) == 1 and ev[0][1] == "set" and size(ev[0][2][1], val) and place_of(ev[0][2][0]) == ("fld", a, gf)
                if not ok and len(ev) == 1 and ev[0][1] == "adjust":
                    d = lin(ev[0][2][1])
                    s = [x for x in d if x is not None and size(x, val)]
                    rest = ladd(d, {s[0]: 1}, -1) if s else {}
                    ok = bool(s) and d[s[0]] == 1 and len(rest) == 1 and list(rest.values()) == [-1] and (list(rest)[0] == ("fld", ("fld", a, gf), L.amount) or str(list(rest)[0]).find("amount") >= 0)
            ctx.require(ok, "tracked-size", fn, f"Tracked::{fn} does not bring its guard to the size of its value: {[(x[1], [flow.show(y) for y in x[2]]) for x in ev]}", w)


def callers_of(q, b):
    """names of the functions that mention b (calls, and uses as a value)"""
    last = b.pretty.split("::")[-1]
    path = "::".join(mir.strip_generics(b.pretty).split("::")[-2:])
    out = set()
    for c in q.bodies.values():
        if c is b or not re.search(rf"\b{re.escape(last)}\b", c.text):
            continue
        c.parse()
        for k in c.blocks:
            t = c.block(k)[1]
            if t[0] == "call" and mir.strip_generics(t[2]) in (path, last) or t[0] == "call" and mir.strip_generics(t[2]).endswith("::" + path):
                out.add(c.name)
    return out


@check("P09", "path-sensitive dataflow over MIR: conservation of the accumulator, save/restore of the thread's current lock",
       "Decides conservation on every path of JsLock and of its users; trusts V8's counter and the atomicity of std's atomics.")
def p09(ctx):
    """Taking the lock: what is removed from the accumulator (atomic swap or subtraction) is what is handed to V8, once, and
    the previous lock of the thread is saved; releasing it restores exactly what was saved.  No function of the crate
    overwrites an accumulator.  The isolate wrapper locks with its own accumulator after draining its own queue."""
    p = ctx.prog("scope")
    L = Ledger(ctx, p)
    b = method(p, L.lock, "new")
    iso = [("arg", b.local_name(a)) for a in b.args if "Isolate" in b.arg_types[a]]
    pen = [("arg", b.local_name(a)) for a in b.args if re.search(ARC.replace(">", "") , b.arg_types[a])]
    if len(iso) != 1 or len(pen) != 1:
        raise Missing("role:lock-new", "parameters of JsLock::new cannot be told")
    iso, pen = iso[0], pen[0]
    prev = role(ctx, p, L.lock, "previous", r"Option<.*CurrentIsolateState>")
    e = ctx.paths(p, b, L.rule)
    n = 0
    for k, st, r in e.exits:
        if k != "return":
            continue
        n += 1
        w = f"{b.pretty}: {[x[:2] for x in st.trace]} under {flow.show_facts(st)}"
        acc, v8 = {}, {}
        for ev in st.trace:
            if ev[0] == "v8":
                v8 = ladd(v8, lin(ev[2]))
                ctx.require(place_of(ev[1]) == iso, "isolate", "new", f"the deferred change is applied to {flow.show(ev[1])}", w)
            elif ev[0] == "acc":
                ctx.require(ev[2] == pen, "accumulator", "new", f"{flow.show(ev[2])} is drained instead of the isolate's accumulator", w)
                if ev[1] == "swap":
                    acc = ladd(ladd(acc, lin(ev[3])), lin(ev[4]), -1)
                elif ev[1] in ("fetch_add", "fetch_sub"):
                    acc = ladd(acc, lin(ev[3]), 1 if ev[1] == "fetch_add" else -1)
                else:
                    ctx.require(False, "atomic-drain", "new", f"{ev[1]} on the accumulator can lose a concurrent change", w)
        zs = zeros(st)
        ctx.require(is_zero(ladd(acc, v8), zs), "conserved", "new", f"taking the lock removes {show_lin(ladd({}, acc, -1))} from the accumulator but hands {show_lin(v8)} to V8", w)
        swaps = [ev for ev in st.trace if ev[0] == "acc"]
        ctx.require(bool(swaps), "drained", "new", "taking the lock does not drain the accumulator", w)
        for ev in swaps:
            if ev[1] == "swap":
                ctx.require(ev[3] == ("c", 0), "drained", "new:swap", f"the accumulator is left at {flow.show(ev[3])}", w)
        # thread state
        t = [(h, v) for h, v in st.heap.items() if h[0] == "tls"]
        okc = len(t) == 1 and t[0][1][0] == "agg" and t[0][1][2] == 1
        c = e.strip(st, t[0][1])[3][0] if okc else None
        ctx.require(okc and c[0] == "agg" and place_of(fld(c, L.iso[L.cur])) == iso and place_of(fld(c, L.pend[L.cur])) == pen, "registered", "new", f"the current lock becomes {flow.show(c) if c else t}", w)
        g = built(st, r, L.lock)
        if ctx.require(len(g) == 1, "registered", "new:result", "no lock is returned", w):
            g = g[0]
            ctx.require(g[4] and fld(g, prev)[0] == "tls", "saved", "new", f"the enclosing lock is not saved: {flow.show(fld(g, prev))}", w)
            ctx.require(place_of(fld(g, L.iso[L.lock])) == iso, "isolate", "new:result", "the lock keeps another isolate", w)
    ctx.floor("paths of JsLock::new", n, 1)
    db = method(p, L.lock, "drop", "Drop")
    me = ("arg", db.local_name(db.args[0]))
    e = ctx.paths(p, db, L.rule)
    for k, st, r in e.exits:
        if k != "return":
            continue
        t = [(h, v) for h, v in st.heap.items() if h[0] == "tls"]
        w = f"{db.pretty}: {[(flow.show(h), flow.show(v)) for h, v in st.heap.items()]}"
        v = t[0][1] if len(t) == 1 else None
        ok = v == ("fld", me, prev) or (v is not None and e.lookup_disc(st, ("fld", me, prev)) == 0 and v == flow.NONE) or \
            (v is not None and v[0] == "agg" and v[2] == 1 and e.lookup_disc(st, ("fld", me, prev)) == 1 and v[3][0] == ("fld", ("fld", me, prev), "Some.0"))
        ctx.require(ok, "restored", "drop", f"releasing the lock leaves {flow.show(v) if v else 'the old lock'} as the current one", w)
    # the current lock, and adjusting through it
    cb = method(p, L.lock, "try_current")
    e = ctx.paths(p, cb, L.rule)
    nsome = 0
    for k, st, r in e.exits:
        if k != "return":
            continue
        w = f"{cb.pretty}: {flow.show(r)} under {flow.show_facts(st)}"
        ctx.require(not any(h[0] == "tls" for h in st.heap) and not st.trace, "peek", "try_current", "asking for the current lock changes it", w)
        cur = L.current(st)
        if r[0] == "agg" and r[2] == 1:
            x = r[3][0]
            base = ("fld", None)
            i, q = (fld(x, L.iso[L.ref]), fld(x, L.pend[L.ref])) if x[0] == "agg" else (None, None)
            ok = i is not None and i[0] == "fld" and q[0] == "fld" and i[1] == q[1] and i[1][0] == "fld" and i[1][1][0] == "tls" and i[2] == L.iso[L.cur] and q[2] == L.pend[L.cur]
            nsome += bool(ok)
            ctx.require(ok and cur in (1, None), "current", "try_current", f"the current lock is reported as {flow.show(r)}", w)
        else:
            ctx.require(cur != 1, "current", "try_current:none", "a held lock is not reported", w)
    ctx.floor("paths that find the current lock", nsome, 1)
    for ty in (L.lock, L.ref):
        ab = p.by_pretty.get(ty + "::adjust_external_memory")
        if ab is None:
            continue
        me, d = ("arg", ab.local_name(ab.args[0])), ("arg", ab.local_name(ab.args[1]))
        e = ctx.paths(p, ab, L.rule)
        for k, st, r in e.exits:
            if k != "return":
                continue
            R = {}
            w = f"{ab.pretty}: {[x[:2] for x in st.trace]} under {flow.show_facts(st)}"
            for ev in st.trace:
                if ev[0] == "v8":
                    R = ladd(R, lin(ev[2]))
                    ctx.require(place_of(ev[1]) == ("fld", me, L.iso[ty]), "isolate", "adjust", "the change goes to another isolate", w)
                elif ev[0] == "acc":
                    R = ladd(R, {("deferred",): 1})
            ctx.require(is_zero(ladd(R, lin(d), -1), zeros(st)), "immediate", ty.split("::")[-1], f"a change of {flow.show(d)} under the lock reaches V8 as {show_lin(R)}", w)
    pb = p.by_pretty.get(L.ref + "::pending_delta")
    if pb is not None:
        e = ctx.paths(p, pb, L.rule)
        for k, st, r in e.exits:
            if k == "return":
                ctx.require(place_of(r) == ("fld", ("arg", pb.local_name(pb.args[0])), L.pend[L.ref]), "accumulator", "pending_delta", f"the accumulator handed out is {flow.show(r)}", pb.pretty)
    # nobody overwrites an accumulator
    n = 0
    for f in ("scope", "full"):
        q = ctx.prog(f)
        for b in q.bodies.values():
            if not re.search(r"Atomic(I64)?(::<i64>)?::(store|swap|compare_exchange|fetch_max|fetch_min|fetch_and|fetch_or)", b.text) or "i64" not in b.text:
                continue
            b.parse()
            for k in b.blocks:
                t = b.block(k)[1]
                if t[0] == "call" and re.search(r"Atomic(I64)?(::<i64>)?::(store|swap|compare_exchange\w*|fetch_max|fetch_min|fetch_and|fetch_or)$", t[2]) and re.search("I64|i64", t[2]):
                    n += 1
                    new = q.by_pretty.get(L.lock + "::new")
                    inside = new is b or (bool(callers_of(q, b)) and callers_of(q, b) <= {new.name})
                    ctx.require(inside and t[2].endswith("swap"), "overwritten", b.pretty, f"{b.pretty} overwrites an accumulator ({t[2].split('::')[-1]})", where(b, t[-1]))
    # the isolate wrapper
    q = ctx.prog("full")
    lm = guard_type(q, "LockerManagedIsolate")
    acc = role(ctx, q, lm, "accumulator", ARC)
    que = role(ctx, q, lm, "queue", r"DeferredDestructionQueue")
    isf = role(ctx, q, lm, "isolate", r"v8::\w*Isolate$")
    cs = [(b, k, t) for b, k, t in callers(q, r"gc::js_lock::JsLock::new$|gc::JsLock::new$")]
    ctx.floor("places that take the lock", len(cs), 1)
    for b in {x[0] for x in cs}:
        ev = lambda e, st, k, n, a, r: ((n.split("::")[-2] + "::" + n.split("::")[-1], a, r) if k == "call" and re.search(r"JsLock::new$|DeferredDestructionQueue::(process_all|has_pending|is_empty)$|v8::Locker::new$", n) else None)
        e = ctx.paths(q, b, Rec(ev, keep=lambda f: True, inline=lambda x: not x.pretty.startswith("gc::")))
        for k, st, r in e.exits:
            if k != "return":
                continue
            seq = [x[0] for x in st.trace]
            w = f"{b.pretty}: {seq}"
            for i, x in enumerate(st.trace):
                if x[0] != "JsLock::new":
                    continue
                base = place_of(x[1][1])
                ctx.require(base[0] == "fld" and base[2] == acc, "own-accumulator", b.pretty, f"the lock is taken with accumulator {flow.show(base)}", w)
                lk = [y for y in st.trace[:i] if y[0] == "Locker::new"]
                ctx.require(bool(lk) and place_of(lk[-1][1][0]) == ("fld", base[1], isf), "own-isolate", b.pretty, "V8's lock is not taken on the same isolate first", w)
                dq = [j for j, y in enumerate(st.trace[:i]) if y[0].endswith("process_all") and place_of(y[1][0]) == ("fld", base[1], que)]
                empty = [y for y in st.trace[:i] if y[0].endswith(("has_pending", "is_empty")) and place_of(y[1][0]) == ("fld", base[1], que) and lk and st.trace.index(lk[-1]) < st.trace.index(y) and st.facts.get(y[2]) is (not y[0].endswith("has_pending"))]
                ctx.require(bool(empty) or (bool(dq) and lk and st.trace.index(lk[-1]) < dq[-1]), "queue-drained", b.pretty, "the isolate's deferred handles are not destroyed under its lock when it is locked", w)


# ------------------------------------------------------------------------------------------------ P10
@check("P10", "ownership and typestate analysis over MIR: every handle moved into the queue leaves it through one destructor",
       "Decides single destruction, lock discipline and count order on every path; trusts VecDeque and Mutex, and that the drainer holds the isolate lock (P09, P16).")
def p10(ctx):
    """The type-erased handle: what it frees is what it boxed, once, in its destructor, and it is not copied.  Deferring pushes
    exactly one handle made of the argument and counts it before it becomes visible.  Draining takes the whole queue under
    the mutex, destroys what it took after releasing the mutex, and then subtracts exactly what it destroyed."""
    p = ctx.prog("scope")
    h = guard_type(p, "DeferredHandle")
    q = guard_type(p, "DeferredDestructionQueue")
    ptr = role(ctx, p, h, "pointer", r"^\*mut")
    dfn = role(ctx, p, h, "destructor", r"^(unsafe)?fn\(")
    que = role(ctx, p, q, "queue", r"Mutex<")
    cnt = role(ctx, p, q, "count", r"Atomic")
    d = p.adt(h)
    ctx.require(not any(re.search(rf"<{h.split('::')[-1]} as (std::clone::)?Clone>|<{h.split('::')[-1]} as (std::marker::)?Copy>", x) for x in p.by_pretty), "not-copied", "handle", "a deferred handle can be copied: it would be destroyed twice", h)
    # constructor: boxes the argument, destructor frees a box of the same type
    nb = method(p, h, "new")
    arg = ("arg", nb.local_name(nb.args[0]))
    ty = nb.arg_types[nb.args[0]]
    ret = None

    class Own(Rec):
        def call(self, e, st, ci):
            if ci.path in ("std::boxed::Box::new", "std::boxed::Box::into_raw", "std::boxed::Box::leak", "std::boxed::Box::from_raw", "std::mem::forget", "std::mem::ManuallyDrop::new"):
                v = e.strip(st, ci.vals[0])
                e.emit(st, ("own", ci.path.split("::")[-2] + "::" + ci.path.split("::")[-1], v))
            return None
    ev = Own(lambda e, st, k, n, a, r: None, drops=lambda e, st, t, v, path: ("drop", t, v) if "Global" in t else None)
    e = ctx.paths(p, nb, ev)
    for k, st, r in e.exits:
        if k != "return":
            continue
        seq = [x[1] for x in st.trace]
        w = f"{nb.pretty}: {seq}"
        g = built(st, r, h)
        if not ctx.require(len(g) == 1, "boxed", "new", "no handle is built", w):
            continue
        ctx.require(place_of(fld(g[0], ptr)) == arg and any(x in ("Box::into_raw", "Box::leak") for x in seq), "boxed", "new", f"the handle keeps {flow.show(fld(g[0], ptr))} instead of the boxed argument", w)
        ctx.require(not [x for x in st.trace if x[0] == "drop" and x[2] == arg], "boxed", "new:drop", "the handle is destroyed while it is being deferred", w)
        f = fld(g[0], dfn)
        fb = None
        if f[0] == "agg" and f[1].startswith("{"):
            fb = e.closure_body(st, f)
        elif f[0] == "fn":
            fb = p.by_pretty.get(f[1])
        if fb is None:
            c = [x for n, x in p.by_pretty.items() if n.startswith(nb.pretty + "::{closure")]
            fb = c[0] if len(c) == 1 else None
        if not ctx.require(fb is not None, "destructor", "resolve", f"the handle's destructor cannot be resolved: {flow.show(f)}", w):
            continue
        e2 = ctx.paths(p, fb, Own(lambda e, st, k, n, a, r: None, drops=lambda e, st, t, v, path: ("drop", t, v) if "Global" in t else None))
        pa = ("arg", fb.local_name(fb.args[-1]))
        for k2, s2, _ in e2.exits:
            if k2 == "return":
                fr = [x for x in s2.trace if x[0] == "own" and x[1] == "Box::from_raw" and x[2] == pa]
                dr = [x for x in s2.trace if x[0] == "drop" and place_of(x[2]) == pa]
                ctx.require(len(fr) == 1 and len(dr) == 1 and "Box<" in dr[0][1], "destructor", "frees-once", f"the destructor frees the boxed handle {len(dr)} times", f"{fb.pretty}: {s2.trace}")
                if dr:
                    ctx.require(mir.split_top(re.search(r"Box<(.*)>$", dr[0][1]).group(1))[0].replace(" ", "") == ty.replace(" ", ""), "destructor", "type", f"the destructor frees a {dr[0][1]} but a {ty} was boxed", fb.pretty)
    db = method(p, h, "drop", "Drop")
    me = ("arg", db.local_name(db.args[0]))
    fnp = lambda e, st, k, n, a, r: ("destroy", a) if k == "call" and n == "<fnptr>" else None
    e = ctx.paths(p, db, Rec(fnp))
    for k, st, r in e.exits:
        if k == "return":
            x = [v for v in st.trace if v[0] == "destroy"]
            ctx.require(len(x) == 1 and x[0][1][0] == ("fld", me, dfn) and x[0][1][1] == ("fld", me, ptr), "destroyed-once", "drop", f"dropping a deferred handle destroys it {len(x)} times", f"{db.pretty}: {st.trace}")
    # defer / process_all and everything else that touches the queue
    PUSH = re.compile(r"VecDeque::(push_back|push_front)$|Vec::push$")
    POP = re.compile(r"(VecDeque|Vec)::(pop_front|pop_back|pop|drain|split_off|append)$")
    OTHER = re.compile(r"(VecDeque|Vec)::(clear|truncate|retain|remove|swap_remove\w*|extend|insert|resize|pop_front|pop_back)$|std::mem::forget$|ManuallyDrop::new$")

    class Q(Rec):
        def call(self, e, st, ci):
            if ci.path in ("std::mem::take", "std::mem::replace", "std::mem::swap"):
                v = e.strip_keep(st, ci.vals[0])
                t = e.place_type(st, ci.ops[0][1]) if ci.ops[0][0] in ("copy", "move") else ""
                if "VecDeque" in t or "Vec<" in t:
                    e.emit(st, ("take", e.strip(st, v)))
            return None

    def want(e, st, k, n, a, r):
        if k in ("lock", "unlock"):
            return (k, n)
        if k == "call":
            if PUSH.search(n):
                return ("push", n, a) if flow.mentions(a[0], lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == que) else None
            if POP.search(n):
                return ("pop", n, a, r)
            if OTHER.search(n):
                return ("other", n, a)
            if atomic(n) in MUTATORS:
                return ("count", atomic(n), place_of(a[0]), a[1], r)
            if atomic(n) == "load":
                return ("load", place_of(a[0]), r)
            if n.endswith("::len"):
                return ("len", a, r)
            if n.endswith("Iterator::next"):
                return ("next", a, r)
        return None

    drops = lambda e, st, t, v, path: ("drop", t, v) if h in t and "Guard" not in t and not t.startswith("&") and "Result<" not in t else None
    mod = q.rsplit("::", 1)[0]
    short = q.split("::")[-1]
    npush = ntake = 0
    for pretty, b in sorted(p.by_pretty.items()):
        if not (pretty.startswith(q + "::") or re.match(rf"{re.escape(mod)}::<{short} as ", pretty)) or "{closure" in pretty or "fmt::" in pretty:
            continue
        name = pretty.rsplit("::", 1)[-1]
        b.parse()
        if not b.args:
            continue
        me = ("arg", b.local_name(b.args[0]))
        Q1 = Q(want, keep=lambda f: True, drops=drops, limit=4, inline=lambda x: x is not nb and not x.pretty.startswith(h))
        e = ctx.paths(p, b, Q1)
        for k, st, r in e.exits:
            if k != "return":
                continue
            tr = st.trace
            w = f"{pretty}: {[x[0] for x in tr]} under {flow.show_facts(st)}"
            push = [i for i, x in enumerate(tr) if x[0] == "push"]
            takes = [i for i, x in enumerate(tr) if x[0] == "take"]
            pops = [i for i, x in enumerate(tr) if x[0] == "pop"]
            cts = [i for i, x in enumerate(tr) if x[0] == "count"]
            oth = [x for x in tr if x[0] == "other"]
            dr = [i for i, x in enumerate(tr) if x[0] == "drop"]
            ctx.require(not oth, "lost", name, f"{name} handles queued handles with {oth[0][1] if oth else ''}", w)
            for i in cts:
                ctx.require(tr[i][1] in ("fetch_add", "fetch_sub"), "count-atomic", name, f"{name} changes the count with {tr[i][1]}", w)
            add = [i for i in cts if tr[i][1] == "fetch_add"]
            dec = [i for i in cts if tr[i][1] == "fetch_sub"]
            gl = re.search(r"Global<", b.arg_types[b.args[-1]]) is not None and len(b.args) > 1
            if gl or push:
                npush += 1
                x = ("arg", b.local_name(b.args[-1]))
                pv = tr[push[0]][2][1] if push else None
                ctx.require(len(push) == 1 and has(pv, x) and flow.mentions(pv, lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and t[1] == nb.pretty), "queued-once", name, f"{name} queues its handle {len(push)} times", w)
                ctx.require(not dr, "queued-once", f"{name}:drop", f"{name} destroys a handle on the calling thread", w)
                ctx.require(len(add) == 1 and not dec and tr[add[0]][3] == ("c", 1), "counted", name, f"{name} counts {[show_lin(lin(tr[i][3])) for i in cts]}", w)
                if add and push:
                    lock = [i for i in range(push[0]) if tr[i][0] == "lock"]
                    unl = [i for i in range(push[0], len(tr)) if tr[i][0] == "unlock"]
                    ctx.require(add[0] < push[0] or (unl and add[0] < unl[0]), "counted-first", name, "a handle becomes visible before it is counted: a concurrent drain takes more than the count and wraps it", w)
                continue
            if takes or pops:
                ntake += 1
                ctx.require(len(takes) <= 1, "taken-once", name, f"{name} takes the queue {len(takes)} times", w)
                if pops:
                    for i in pops:
                        op = tr[i][1].split("::")[-1]
                        if op == "drain":
                            ctx.require("RangeFull" in str(tr[i][2][1]), "drains", name, f"{name} drains only {flow.show(tr[i][2][1])} of the queue", w)
                        elif op == "split_off":
                            ctx.require(tr[i][2][1] == ("c", 0), "drains", name, f"{name} takes only a part of the queue", w)
                    one = [i for i in pops if tr[i][1].split("::")[-1] in ("pop", "pop_front", "pop_back")]
                    if one:
                        last = tr[one[-1]][3]
                        ctx.require(e.lookup_disc(st, last) == 0, "drains", name, f"{name} returns after taking one handle although more may be queued", w)
                held = 0
                for i, x in enumerate(tr):
                    held += (x[0] == "lock") - (x[0] == "unlock")
                    if x[0] == "drop" and held > 0 and "()" != x[1]:
                        ctx.require(False, "outside-mutex", name, f"{name} destroys handles while holding the queue's mutex: a destructor that defers again deadlocks", w)
                if takes:
                    T = tr[takes[0]][1]
                    mine = [i for i in dr if has(tr[i][2], T) or tr[i][2] == T]
                    empty = any(tr[i][0] == "len" and st.facts.get(tr[i][2]) == 0 for i in range(len(tr))) or any(isinstance(f, tuple) and f[0] == "call" and f[1].endswith("is_empty") and v is True for f, v in st.facts.items())
                    nx = [x for x in tr if x[0] == "next" and any(has(a, T) or a == T for a in x[1])]
                    if nx and e.lookup_disc(st, nx[-1][2]) == 0 and len(mine) >= len({x[2] for x in nx}) - 1:
                        mine = mine or [takes[0]]
                    ctx.require(bool(mine), "destroyed", name, f"{name} takes the queued handles but does not destroy them", w)
                    if empty:
                        ctx.require(not dec or all(has(tr[i][3], T) or tr[i][3] == ("c", 0) for i in dec), "subtracted", name, "the count is lowered although nothing was taken", w)
                    else:
                        ok = len(dec) == 1 and tr[dec[0]][3][0] == "call" and tr[dec[0]][3][1].endswith("::len") and has(tr[dec[0]][3], T)
                        ctx.require(ok and not add, "subtracted", name, f"after destroying what it took {name} subtracts {[flow.show(tr[i][3]) for i in dec]}", w)
                        if dec and mine:
                            ctx.require(dec[0] > min(takes), "subtracted", f"{name}:order", "the count is lowered before the handles are taken", w)
            else:
                ctx.require(not dec and not add, "count-only", name, f"{name} changes the count without touching the queue", w)
                if name in ("has_pending", "is_empty", "len"):
                    ok = flow.mentions(r, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and atomic(t[1]) == "load" and place_of(t[2][0]) == ("fld", me, cnt)) or any(x[0] == "lock" for x in tr)
                    ctx.require(ok, "count-read", name, f"{name} returns {flow.show(r)}", w)
                if name == "process_all":
                    # giving up early is allowed only when the count says that nothing is pending
                    ok = False
                    for f, v in st.facts.items():
                        if isinstance(f, tuple) and f[0] == "op" and f[1] in ("Gt", "Ge", "Eq", "Ne", "Lt", "Le"):
                            ld = [y for y in (f[2], f[3]) if y[0] == "call" and atomic(y[1]) == "load"]
                            c = [y for y in (f[2], f[3]) if y[0] == "c"]
                            if ld and c and place_of(ld[0][2][0]) == ("fld", me, cnt):
                                c = c[0][1]
                                sw = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}
                                op = f[1] if f[2] == ld[0] else sw.get(f[1], f[1])
                                op = op if v else {"Gt": "Le", "Le": "Gt", "Lt": "Ge", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
                                ok = ok or (op, c) in (("Le", 0), ("Eq", 0), ("Lt", 1))
                        if isinstance(f, tuple) and f[0] == "call" and atomic(f[1]) == "load" and v == 0 and place_of(f[2][0]) == ("fld", me, cnt):
                            ok = True
                        if isinstance(f, tuple) and f[0] == "call" and f[1].endswith("is_empty") and v is True:
                            ok = True
                    ctx.require(ok, "drains", name, f"{name} returns without draining although handles may be pending", w)
    ctx.floor("deferring paths", npush, 1)
    ctx.floor("draining paths", ntake, 1)
