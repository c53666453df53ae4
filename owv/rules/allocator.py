"""P01 / P02: the array-buffer allocator behind V8's vtable."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *

VT = "RustAllocatorVtable$"
ALLOC_FN = re.compile(r"std::vec::from_elem$|std::vec::Vec::(with_capacity|try_with_capacity|resize|resize_with|extend_from_slice)$|std::alloc::(alloc|alloc_zeroed)$|std::boxed::Box::(new_uninit_slice|new_zeroed_slice)$|std::alloc::realloc$|std::vec::Vec::set_len$|libc::(malloc|calloc)$|std::iter::(repeat|repeat_n)$")


class Alloc:
    def __init__(self, prog):
        self.p = prog
        vts = [(b, s) for b, k, s in find_aggs(prog, VT)]
        if not vts:
            raise Missing("vtable", "no allocator vtable is constructed")
        self.vtables = []
        for b, s in vts:
            d = {n: fn_operand(b, o) for n, o in zip(s[2][2], s[2][3])}
            self.vtables.append((b, d))
        b, d = self.vtables[0]
        self.entries = d
        self.bodies = {}
        for n, f in d.items():
            body = prog.by_pretty.get(f or "") or next((x for x in prog.by_pretty.values() if f and x.pretty.endswith("::" + f.split("::")[-1])), None)
            if body is None:
                raise Missing(f"entry:{n}", f"allocator entry point {n} cannot be resolved ({f})")
            self.bodies[n] = body
        a0 = self.bodies["allocate"]
        self.ty = mir.type_head(a0.arg_types[a0.args[0]])
        if prog.adt(self.ty) is None:
            raise Missing("state", f"allocator state type {self.ty} not found")
        # roles by type: the counter is the atomic integer, the flag the shared atomic bool, the limit the plain integer
        self.count = self.one("counter", lambda t: re.search(r"Atomic(Usize|U64|Isize|I64)$|Atomic<[ui](size|64)>$", t))
        self.flag = self.one("flag", lambda t: re.search(r"Arc<(\w+::)*(AtomicBool|Atomic<bool>)>$", t))
        self.limit = self.one("limit", lambda t: t in ("usize", "u64"))

    def one(self, what, pred):
        fs = typed_fields(self.p, self.ty, lambda t: bool(pred(t)))
        if len(fs) != 1:
            raise Missing(f"role:{what}", f"cannot tell which field of {self.ty} is the {what}: {fs}")
        return fs[0]

    def is_f(self, t, f):
        return t[0] == "fld" and t[2] == f

    # -------------------------------------------------------------- one path
    def rule(self):
        def want(e, st, kind, name, args, res):
            op = atomic(name) if kind == "call" else None
            if op and args:
                tgt = place_of(args[0])
                if self.is_f(tgt, self.count):
                    return ("count", op, args, res)
                if self.is_f(tgt, self.flag):
                    return ("flag", op, args, res)
            if kind == "call" and ALLOC_FN.search(name):
                return ("alloc", name, args, res)
            if kind == "call" and re.search(r"std::alloc::dealloc$|libc::free$", name):
                return ("dealloc", name, args, res)

        def drops(e, st, ty, val, path):
            h = mir.type_head(ty)
            if re.match(r"std::boxed::Box<\[(u8|i8)", ty) or (h == "std::vec::Vec" and re.search(r"<(u8|i8)", ty)):
                return ("dealloc", ty, (val,), None)
            if h == "std::sync::Arc" and self.ty in ty:
                return ("release", ty, (val,), None)

        def call(e, st, ci):
            op = atomic(ci.path)
            if op in ("compare_exchange", "compare_exchange_weak") and self.is_f(place_of(e.strip(st, ci.vals[0])), self.count):
                old, new = e.strip(st, ci.vals[1]), e.strip(st, ci.vals[2])
                out = []
                s = st.fork()
                e.emit(s, ("count", "cas", (old, new), old), 3)
                out += e.finish(s, ci, flow.okv(old))
                s = st.fork()
                cur = e.fresh(s, ("call", ci.path, (e.strip(st, ci.vals[0]),), st.site()), st.site(), ci.path)
                e.emit(s, ("count", "load", (cur,), cur), 3)
                return out + e.finish(s, ci, flow.errv(cur))
            if op in ("fetch_update", "try_update") and self.is_f(place_of(e.strip(st, ci.vals[0])), self.count):
                cur = ("cnt", st.site())
                subs = sub_paths(e, st, ci.vals[-1], [cur])
                if subs is None:
                    return None
                out = []
                for facts, r in subs:
                    s = st.fork()
                    s.facts.update(facts)
                    if r[0] == "agg" and r[2] == 1:
                        e.emit(s, ("count", "cas", (cur, r[3][0]), cur), 3)
                        out += e.finish(s, ci, flow.okv(cur))
                    elif r[0] == "agg" and r[2] == 0:
                        e.emit(s, ("count", "load", (cur,), cur), 3)
                        out += e.finish(s, ci, flow.errv(cur))
                    else:       # the closure's result is an Option term: decide it
                        for i, s2 in e.enum_fork(s, r):
                            s2 = s2.fork()
                            if i == 1:
                                e.emit(s2, ("count", "cas", (cur, ("fld", r, "Some.0")), cur), 3)
                                out += e.finish(s2, ci, flow.okv(cur))
                            else:
                                e.emit(s2, ("count", "load", (cur,), cur), 3)
                                out += e.finish(s2, ci, flow.errv(cur))
                return out
        keep = lambda f: flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] == "fld" and t[2] in (self.limit, self.count)) or flow.mentions(f, lambda t: isinstance(t, tuple) and t and t[0] == "cnt") or (isinstance(f, tuple) and f[0] == "op" and f[1] in ("Eq", "Ne"))
        return Rec(want, keep, drops=drops, call=call)

    def summarise(self, st):
        """net counter change, comparison facts as linear forms > 0, flag writes, allocations"""
        own, vals, notes = {}, {}, []
        U = ("U",)
        flags, allocs, deallocs, releases = [], [], [], []
        fixed = {k: v for k, v in st.facts.items() if isinstance(v, int) and not isinstance(v, bool) and isinstance(k, tuple) and k[0] in ("arg", "fld", "call")}

        for k, v in st.facts.items():
            if v is True and isinstance(k, tuple) and k[0] == "op" and k[1] == "Eq" and k[3][0] == "c" and isinstance(k[3][1], int):
                fixed[k[2]] = k[3][1]

        def norm(d):
            r = {}
            for s, c in d.items():
                if s in fixed:
                    r = ladd(r, {None: fixed[s]} if fixed[s] else {}, c)
                elif s in vals:
                    r = ladd(r, vals[s][0], c)
                else:
                    r = ladd(r, {s: 1}, c)
            return r
        for ev in st.trace:
            k = ev[0]
            if k == "count":
                _, op, args, res = ev
                if op == "load":
                    vals[res] = (ladd({U: 1}, own), "reserved" if own else "plain")
                elif op in ("fetch_add", "fetch_sub"):
                    vals[res] = (ladd({U: 1}, own), "reserved")
                    own = ladd(own, norm(lin(args[1])), 1 if op == "fetch_add" else -1)
                elif op == "cas":
                    vals[args[0]] = (ladd({U: 1}, own), "reserved")
                    own = ladd(own, ladd(norm(lin(args[1])), norm(lin(args[0])), -1))
                elif op in MUTATORS:
                    notes.append(f"the usage counter is overwritten by {op}")
            elif k == "flag":
                if ev[1] in ("store", "swap"):
                    flags.append(ev[2][1])
                elif ev[1] == "fetch_or":
                    flags.append(ev[2][1])
                elif ev[1] in MUTATORS:
                    flags.append(("?",))
            elif k == "alloc":
                allocs.append(ev)
            elif k == "dealloc":
                deallocs.append(ev)
            elif k == "release":
                releases.append(ev)
        forms = []
        for f, v in st.facts.items():
            if isinstance(f, tuple) and f[0] == "op" and f[1] in ("Gt", "Ge", "Lt", "Le") and isinstance(v, bool):
                a, b = f[2], f[3]
                op = f[1]
                if op in ("Lt", "Le"):
                    a, b, op = b, a, {"Lt": "Gt", "Le": "Ge"}[op]
                d = ladd(norm(lin(a)), norm(lin(b)), -1)
                src = [vals[s][1] for s in list(lin(a)) + list(lin(b)) if s in vals]
                if op == "Ge":
                    d = ladd(d, {None: 1})
                if not v:       # not(d > 0)  ->  -d + 1 > 0
                    d = ladd({None: 1}, d, -1)
                forms.append((d, src))
            if isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "call" and isinstance(v, int):
                m = re.search(r"checked_(add|sub)$", f[1][1])
                if m:
                    a, b = norm(lin(f[1][2][0])), norm(lin(f[1][2][1]))
                    src = [vals[s][1] for s in list(lin(f[1][2][0])) + list(lin(f[1][2][1])) if s in vals]
                    if m.group(1) == "sub":
                        d = ladd(b, a, -1)
                        forms.append((d if v == 0 else ladd({None: 1}, d, -1), src))
                    elif v == 0:
                        lim = [x for x in flow.walk(("x",) + tuple(st.facts)) if isinstance(x, tuple) and len(x) > 2 and x[0] == "fld" and x[2] == self.limit]
                        forms.append((ladd(ladd(a, b), {("fld", ("arg", self.bodies["allocate"].local_name(1)), self.limit): 1}, -1), src))
        return dict(own=own, forms=forms, flags=flags, allocs=allocs, deallocs=deallocs, releases=releases, notes=notes, norm=norm)


def is_null(st, r):
    if r is None:
        return False
    if r == ("c", 0):
        return True
    if r[0] == "call" and re.search(r"ptr::(null|null_mut)$", r[1]):
        return True
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f[0] == "call" and f[1].endswith("is_null") and f[2] and (f[2][0] == r) and v in (True, 1):
            return True
    return False


def implies(d, want):
    """d > 0 implies want > 0"""
    k = ladd(want, d, -1)
    return set(k) <= {None} and k.get(None, 0) >= 0


def size_of(ev):
    """the length an allocation event asks for, None when it does not determine the length of the buffer"""
    n, a = ev[1].split("::")[-1], ev[2]
    if n in ("from_elem", "resize", "resize_with", "set_len", "repeat_n", "malloc"):
        return a[1] if len(a) > 1 else a[0]
    if n in ("new_uninit_slice", "new_zeroed_slice", "with_capacity", "try_with_capacity"):
        return a[0]
    if n in ("alloc", "alloc_zeroed"):
        for t in flow.walk(a[0]):
            if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1].endswith("Layout::array"):
                return t[2][0]
            if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and re.search(r"Layout::from_size_align(_unchecked)?$", t[1]):
                return t[2][0]
        return ("unknown size",)
    return None


def given_back(x):
    """the lengths from which a deallocated buffer is rebuilt"""
    out = []
    for t in flow.walk(x):
        if isinstance(t, tuple) and len(t) == 4 and t[0] == "call":
            if re.search(r"(slice_)?from_raw_parts(_mut)?$", t[1]):
                out += t[2][1:]
            elif t[1].endswith("Layout::array") or re.search(r"Layout::from_size_align(_unchecked)?$", t[1]):
                out.append(t[2][0])
    return out


def analysed(ctx):
    p = ctx.prog("scope")
    a = Alloc(p)
    return p, a


@check("P01", "path-sensitive dataflow over MIR with symbolic counter deltas",
       "Decides the accounting arithmetic on every control-flow path of the four allocator callbacks; assumes V8 frees each buffer once with the length it asked for.")
def p01(ctx):
    """Every control-flow path of the callbacks in the allocator vtable is followed on rustc's MIR (helpers inlined);
    the net symbolic change of the usage counter is computed per path and must be +n where memory is returned, 0 where
    null is returned and -n on free, with exactly one buffer deallocated from (data, n).  No other function of the
    module may write the counter, and it starts at zero."""
    p, a = analysed(ctx)
    for name in ("allocate", "allocate_uninitialized"):
        b = a.bodies[name]
        n = ("arg", b.local_name(b.args[1]))
        e = ctx.paths(p, b, a.rule())
        ctx.floor(f"paths of {name}", len([1 for k, s, r in e.exits if k == "return"]), 2)
        for k, st, r in e.exits:
            if k != "return":
                continue
            s = a.summarise(st)
            nn = s["norm"]({n: 1})
            null = is_null(st, r)
            want = {} if null else nn
            ctx.require(s["own"] == want and not s["notes"], "usage-delta", f"{name}:{'refused' if null else 'granted'}",
                        f"{name} {'returns null' if null else 'hands out memory'} but changes the usage by {show_lin(s['own'])} instead of {show_lin(want)}; {s['notes']}",
                        f"{b.pretty} -> return {flow.show(r)} under {flow.show_facts(st)}")
            if not null and nn:
                sz = [x for x in (size_of(ev) for ev in s["allocs"]) if x is not None]
                ctx.require(bool(sz) and all(s["norm"](lin(x)) == nn for x in sz), "buffer-length", name,
                            f"the memory handed out is not an allocation of the requested length ({[flow.show(x) for x in sz]})", b.pretty)
            ctx.sample(f"{name}: {'null' if null else 'buffer'} => usage {show_lin(s['own'])}")
    b = a.bodies["free"]
    data, n = ("arg", b.local_name(b.args[1])), ("arg", b.local_name(b.args[2]))
    e = ctx.paths(p, b, a.rule())
    rets = [(st, r) for k, st, r in e.exits if k == "return"]
    ctx.floor("paths of free", len(rets), 1)
    for st, r in rets:
        s = a.summarise(st)
        nn = s["norm"]({n: 1})
        isnull = any(isinstance(f, tuple) and f[0] == "call" and f[1].endswith("is_null") and v in (True, 1) for f, v in st.facts.items())
        ctx.require(s["own"] == ladd({}, nn, -1) and not s["notes"], "usage-delta", "free",
                    f"free changes the usage by {show_lin(s['own'])} instead of {show_lin(ladd({}, nn, -1))}; {s['notes']}", b.pretty)
        if isnull or not nn:
            continue
        mine = [d for d in s["deallocs"] if any(flow.mentions(x, lambda t: t == data) for x in d[2])]
        ctx.require(len(mine) == 1, "freed-once", "free", f"the buffer is deallocated {len(mine)} times on a path of free", b.pretty)
        lens = [y for d in mine for x in d[2] for y in given_back(x)]
        ctx.require(all(any(flow.mentions(x, lambda t: t == n) for x in d[2]) for d in mine) and all(s["norm"](lin(y)) == nn for y in lens), "freed-length", "free",
                    "the buffer is deallocated with a length other than the one passed in", b.pretty)
    b = a.bodies["drop"]
    e = ctx.paths(p, b, a.rule())
    for k, st, r in e.exits:
        if k == "return":
            s = a.summarise(st)
            ctx.require(len(s["releases"]) == 1, "state-released", "drop", f"the allocator state is released {len(s['releases'])} times when the allocator is dropped", b.pretty)
            ctx.require(not s["own"] and not s["deallocs"], "usage-delta", "drop", "dropping the allocator changes the usage counter", b.pretty)
    # who may write the counter
    reach = set(ctx.functions)
    mod = a.ty.rsplit("::", 1)[0]
    nobody = 0
    for pretty, b in p.by_pretty.items():
        if not pretty.startswith(mod + "::") or pretty in reach or b.header.startswith(("const", "static")):
            continue
        e = ctx.paths(p, b, a.rule(), max_states=20000)
        nobody += 1
        for k, st, r in e.exits:
            bad = [ev for ev in st.trace if ev[0] == "count" and ev[1] in MUTATORS]
            ctx.require(not bad, "counter-writer", pretty, f"{pretty} writes the usage counter outside the allocator callbacks: {bad[:1]}", pretty)
    ctx.floor("other functions of the allocator module", nobody, 1)
    inits = [(b, s) for b, k, s in find_aggs(p, re.escape(a.ty.split('::')[-1]) + "$")]
    ctx.floor("constructions of the allocator state", len(inits), 1)
    for b in {b for b, s in inits}:
        e = ctx.paths(p, b)
        for k, st, r in e.exits:
            ag = [t for t in flow.walk(r) if isinstance(t, tuple) and t and t[0] == "agg" and t[1] == a.ty] if r else []
            for t in ag:
                c = t[3][t[4].index(a.count)]
                ctx.require(any(x == ("c", 0) for x in flow.walk(c)), "initial-usage", b.pretty, f"the usage counter starts at {flow.show(c)}", b.pretty)


@check("P02", "path-sensitive dataflow over MIR: branch facts normalised to linear inequalities",
       "Decides the guard condition, flag write and zeroing on every path of both allocation callbacks; assumes the allocator reports real memory to V8 through these callbacks only.")
def p02(ctx):
    """On every control-flow path of both allocation callbacks the branch facts are normalised to linear inequalities over
    (usage before, requested length, limit).  A null return requires usage + n > limit and the shared flag set to true; a
    buffer requires usage + n <= limit and the flag untouched; the compared usage must come from an atomic step that
    already contains the reservation (no check-then-act), and the zeroing entry point must use a zeroing allocation."""
    p, a = analysed(ctx)
    U = ("U",)
    for name in ("allocate", "allocate_uninitialized"):
        b = a.bodies[name]
        n = ("arg", b.local_name(b.args[1]))
        lim = ("fld", ("arg", b.local_name(b.args[0])), a.limit)
        e = ctx.paths(p, b, a.rule())
        rets = [(st, r) for k, st, r in e.exits if k == "return"]
        ctx.floor(f"paths of {name}", len(rets), 2)
        nnull = 0
        for st, r in rets:
            s = a.summarise(st)
            null = is_null(st, r)
            nnull += null
            where_ = f"{b.pretty} -> return {flow.show(r)} under {flow.show_facts(st)}"
            nn = s["norm"]({n: 1})
            over = ladd(ladd({U: 1}, nn), {lim: 1}, -1)
            fits = ladd(ladd({lim: 1}, ladd({U: 1}, nn), -1), {None: 1})
            got = [src for d, src in s["forms"] if implies(d, over if null else fits)]
            if null:
                failed = any(isinstance(f, tuple) and f[0] == "call" and f[1].endswith("is_null") and v in (True, 1) for f, v in st.facts.items())
                if failed and not got:
                    continue
                ctx.require(bool(got), "refusal-condition", name, f"memory is refused without usage + n > limit being established (facts: {[show_lin(d) + ' > 0' for d, _ in s['forms']]})", where_)
                ctx.require(flow.TRUE in s["flags"] and all(x == flow.TRUE for x in s["flags"]), "flag-on-refusal", name, "a refused allocation does not mark the memory limit as hit", where_)
            else:
                if not nn and not s["allocs"]:
                    continue
                ctx.require(bool(got), "grant-condition", name, f"memory is handed out without usage + n <= limit being established (facts: {[show_lin(d) + ' > 0' for d, _ in s['forms']]})", where_)
                ctx.require(not s["flags"], "flag-on-grant", name, "a granted allocation writes the memory-limit flag", where_)
                if name == "allocate":
                    z = [ev for ev in s["allocs"] if (ev[1].endswith("from_elem") and ev[2][0] == ("c", 0)) or ev[1].endswith(("alloc_zeroed", "new_zeroed_slice", "calloc"))
                         or (ev[1].endswith("resize") and ev[2][2] == ("c", 0)) or (ev[1].endswith(("repeat", "repeat_n")) and ev[2][0] == ("c", 0))]
                    wb = [ev for ev in s["allocs"] if ev[1].endswith("set_len")]
                    ctx.require(bool(z) and not wb, "zeroed", name, "the zeroing entry point hands out memory that is not zeroed", where_)
            for src in (() if null else got):
                ctx.require(all(x == "reserved" for x in src) and src, "atomic-check", name, "the limit is compared with a usage that does not yet contain this request: two threads can both pass", where_)
        ctx.floor(f"refusing paths of {name}", nnull, 1)
    for b in {b for b, k, s in find_aggs(p, re.escape(a.ty.split('::')[-1]) + "$")}:
        e = ctx.paths(p, b)
        for k, st, r in e.exits:
            for t in [t for t in flow.walk(r) if isinstance(t, tuple) and t and t[0] == "agg" and t[1] == a.ty]:
                v = t[3][t[4].index(a.limit)]
                f = t[3][t[4].index(a.flag)]
                ctx.require(v[0] == "arg", "limit-from-caller", b.pretty, f"the limit is {flow.show(v)}, not the caller's", b.pretty)
                ctx.require(f[0] == "arg", "flag-shared", b.pretty, f"the flag is {flow.show(f)}, not the one the runtime reads", b.pretty)
    from .limits import sites
    sites(ctx, ctx.prog("full"), set(), (), "P02")
