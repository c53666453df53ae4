"""P13, P14, P15, P17: the pool of isolates - owners, slots, limits and warm contexts."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .guards import guard_type, method

EXEC = "pool::execute_pinned::{closure#0}"
REMOVES = re.compile(r"Vec::(remove|swap_remove|pop|clear|truncate|drain|retain|retain_mut|split_off|pop_if|dedup\w*|extract_if)$|std::mem::(take|replace|swap)$")
FEATURES = ((), ("multiplexing",))


def outside_tests(b):
    return "tests::" not in b.pretty and "test_" not in b.pretty


def in_pool(b):
    return b.pretty.startswith("pool::") and outside_tests(b)


def calls_of(b):
    b.parse()
    for k in b.blocks:
        t = b.block(k)[1]
        if t[0] == "call":
            yield k, t


class Slots:
    """the type that counts the users of an isolate and what its methods do"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.iso = guard_type(p, "TaggedIsolate")
        fs = typed_fields(p, self.iso, lambda t: "ConcurrencyState" in t)
        if len(fs) != 1:
            raise Missing("role:slot-state", f"cannot tell which field of TaggedIsolate counts its users: {fs}")
        self.field = fs[0]
        self.ty = guard_type(p, "ConcurrencyState")
        cs = typed_fields(p, self.ty, lambda t: re.search(r"^(\w+::)*Atomic(Bool|Usize|<)", t))
        if len(cs) != 1:
            raise Missing("role:counter", f"cannot tell the counter of ConcurrencyState: {cs}")
        self.counter = cs[0]
        self.take, self.give, self.free, self.roles = set(), set(), set(), {}
        for b in p.bodies.values():
            if not (b.pretty.startswith("pool::ConcurrencyState::") and outside_tests(b)):
                continue
            b.parse()
            ops = {last(mir.strip_generics(t[2])) for _, t in calls_of(b) if atomic(mir.strip_generics(t[2]))}
            sub = {c.pretty for k, t in calls_of(b) for c in (p.by_pretty.get("pool::" + mir.strip_generics(t[2])),) if c}
            if not ops:
                continue
            name = b.pretty
            if ops & {"compare_exchange", "compare_exchange_weak", "fetch_update", "fetch_add", "swap", "try_update"} and b.locals.get(0, "") == "bool":
                self.take.add(name)
            elif ops & MUTATORS:
                self.give.add(name)
            elif "load" in ops and b.locals.get(0, "") == "bool":
                self.free.add(name)
            if name in self.take | self.give | self.free:
                self.roles[name] = b
        if not (self.take and self.give and self.free):
            raise Missing("role:slot-methods", f"the methods of ConcurrencyState cannot be told apart: {sorted(self.roles)}")

    def kind(self, name):
        n = name if name.startswith("pool::") else "pool::" + name
        return "take" if n in self.take else "give" if n in self.give else "free" if n in self.free else None

    def root(self, a):
        """the isolate whose slot state a is"""
        a = place_of(a)
        return a[1] if a[0] == "fld" and a[2] == self.field else a

    def reaching(self, names):
        """bodies of the pool from which one of the methods can be called"""
        p, seen = self.p, set(names)
        rest = [b for b in p.bodies.values() if in_pool(b)]
        changed = True
        while changed:
            changed = False
            for b in rest:
                if b.pretty in seen:
                    continue
                hit = b.pretty.rsplit("::", 1)[0] if "{closure" in b.pretty else None
                for k, t in calls_of(b):
                    n = mir.strip_generics(t[2])
                    if n in seen or "pool::" + n in seen:
                        hit = True
                        break
                else:
                    hit = False
                if not hit:      # a closure it builds
                    hit = any(c.startswith(b.pretty + "::{closure") for c in seen)
                if not hit and re.search(r"drop\(", b.text):
                    hit = any(re.search(r"pool::<(\w+) as Drop>::drop", c) and self.holds(b, re.search(r"<(\w+) as Drop>", c).group(1)) for c in seen if " as Drop>::drop" in c)
                if hit:
                    seen.add(b.pretty)
                    changed = True
        return seen

    def holds(self, b, ty):
        return any(re.search(rf"\b{ty}\b", str(t)) and not str(t).startswith("&") for t in b.locals.values())


def last(n):
    return n.split("::")[-1]


def eq_fact(st, a, b):
    """do the path's facts say a == b"""
    for f, v in st.facts.items():
        if isinstance(f, tuple) and len(f) == 4 and f[0] == "op" and f[1] in ("Eq", "Ne") and isinstance(v, bool) and v == (f[1] == "Eq"):
            x, y = place_of(f[2]), place_of(f[3])
            if (a(x) and b(y)) or (a(y) and b(x)):
                return True
    return False


def search(e, st, ci):
    """find / position with a closure that is known: nothing found, or the closure was true for the element"""
    m = re.search(r"Iterator::(find|position|rposition|any)$", ci.path)
    if not m or len(ci.vals) != 2 or e.closure_body(st, e.strip_keep(st, ci.vals[1])) is None or not e.may_inline(st, e.closure_body(st, e.strip_keep(st, ci.vals[1]))):
        return None
    it = e.strip(st, ci.vals[0])
    found = ("fld", flow.cut(("call", ci.path, (it,), st.site())), "Some.0")
    none = st.fork()
    e.emit(none, ("nothing",), 1)
    if m.group(1) == "any":
        return e.finish(none, ci, ("c", False)) + flow._call_closure(e, st, ci.vals[1], [("fld", found[1], "elem")], ci, None)
    elem = found if m.group(1) == "find" else ("call", "std::ops::Index::index", (it, found), st.site())
    return e.finish(none, ci, flow.NONE) + flow._call_closure(e, st, ci.vals[1], [elem], ci, ("filter", found))


def leaves(r):
    if r[0] == "agg" and not r[1].endswith("TaggedIsolate"):
        for x in r[3]:
            yield from leaves(x)
    elif r[0] not in ("c",) and r != ("default",):
        yield r


class Acquire:
    """every path of the function that hands out an isolate"""

    def __init__(self, ctx, p):
        s = self.s = Slots(ctx, p)
        self.p = p
        self.body = p.by_pretty.get(EXEC)
        if self.body is None:
            raise Missing("fn:execute_pinned", "execute_pinned not found")
        self.taking, self.giving = s.reaching(s.take), s.reaching(s.give)
        here = []
        for k, t in calls_of(self.body):
            n = mir.strip_generics(t[2])
            for c in (n, "pool::" + n):
                if c in self.taking and c in p.by_pretty and p.by_pretty[c] not in here:
                    here.append(p.by_pretty[c])
        if len(here) != 1:
            raise Missing("role:acquire", f"cannot tell which call of execute_pinned acquires the isolate: {[b.pretty for b in here]}")
        self.fn = here[0]
        self.fn.parse()
        owners = [("arg", self.fn.local_name(a)) for a in self.fn.args if re.search(r"\bstr\b|\bString\b", str(self.fn.arg_types[a]))]
        if len(owners) != 1:
            raise Missing("role:owner", f"cannot tell the owner parameter of {self.fn.pretty}")
        self.owner = owners[0]
        self.states = None

    def is_taken(self, f, v):
        return isinstance(f, tuple) and f and f[0] == "call" and self.s.kind(f[1]) == "take" and v is True

    def explore(self, ctx):
        s = self.s

        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            kind = s.kind(n)
            if kind in ("take", "give"):
                return (kind, s.root(a[0]), r)
            if kind == "free":
                return looked(s.root(a[0]))
            if REMOVES.search(n) and a and "isolates" in flow.show(a[0]):
                return ("rm", n, a, r, tuple(sorted((kv for kv in st.facts.items() if isinstance(kv[0], tuple) and kv[0][0] == "call" and s.kind(kv[0][1]) == "free"), key=repr)))
            return None

        def age(e, st, o):
            tag = ()
            for f, v in list(st.facts.items()):
                if isinstance(f, tuple) and f and f[0] == "call" and flow.mentions(f, lambda t: t == o):
                    if s.kind(f[1]) == "free" and v is True:
                        tag = ("free",)
                    if self.is_taken(f, v):
                        e.emit(st, ("leaked", s.root(f[2][0])), 1)
            return tag

        def keep(f):
            return flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and (s.kind(t[1]) or t[1].endswith("::len") or "count" in t[1])) or "max_isolates" in str(f)
        R = Rec(want, keep=keep, limit=2, inline=lambda b: in_pool(b) and b.pretty not in s.roles, call=search)
        R.age = age
        self.e = ctx.paths(self.p, self.fn, R, max_states=120000)
        return [(st, r) for k, st, r in self.e.exits if k == "return"]

    def taken(self, st):
        return [self.s.root(f[2][0]) for f, v in st.facts.items() if self.is_taken(f, v)]

    def got(self, r):
        return list(leaves(r)) if r is not None else []


def fresh(t):
    return t[0] == "agg" and t[1].endswith("TaggedIsolate")


def same_isolate(st, x, conc):
    """the slot state conc belongs to isolate x"""
    return conc == x or (fresh(x) and any(y == conc for y in x[3]))


@check("P13", "path enumeration over MIR: equality facts on every path that hands out an isolate, plus a write scan of the owner tag",
       "Decides the acquire function and its caller for all pool contents; trusts that String equality compares owners.")
def p13(ctx):
    """All paths of the function that hands out an isolate are followed with its helpers inlined, in both concurrency modes.
    Every isolate it returns is either one whose owner the path has compared equal to the requested owner, or one built on
    that path with that owner; the owner tag of an isolate is written nowhere else; execute_pinned asks for the owner named in
    the request and runs the request on the isolate it was given."""
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        if blanked(ctx, p):
            continue
        a = Acquire(ctx, p)
        handed = 0
        for st, r in a.explore(ctx):
            for x in a.got(r):
                handed += 1
                w = f"{a.fn.pretty} under {flow.show_facts(st)[:300]}"
                if fresh(x):
                    ctx.require(place_of(x[3][x[4].index("owner_id")]) == a.owner, "tagged-with-owner", "fresh",
                                f"a new isolate is tagged with {flow.show(x[3][x[4].index('owner_id')])[:80]}, not with the owner it is made for", w)
                else:
                    ctx.require(eq_fact(st, lambda t: t == a.owner, lambda t: t == ("fld", x, "owner_id")), "owner-checked", "reused",
                                "an existing isolate is handed out without knowing that it belongs to the requested owner", w)
        ctx.floor(f"isolates handed out on the paths{'/' + feats[0] if feats else ''}", handed, 2)
        # the tag is never rewritten
        n = 0
        for b in p.bodies.values():
            if not in_pool(b) or "owner_id" not in b.text and "TaggedIsolate" not in b.text:
                continue
            b.parse()
            n += 1
            for k in b.blocks:
                stmts, term = b.block(k)
                dests = [s_[1] for s_ in stmts if s_[0] == "assign"] + ([term[1]] if term[0] == "call" and term[1] else [])
                for d in dests:
                    pl = flow_fields(p, b, d)
                    ctx.require(not pl, "tag-immutable", b.pretty, f"the owner tag of an isolate is written in {b.pretty}", b.pretty)
                for s_ in stmts:
                    if s_[0] == "assign" and s_[2][0] in ("ref", "addr", "rawptr") and re.search(r"mut", str(s_[2][:2])):
                        ctx.require(not flow_fields(p, b, s_[2][-1]), "tag-immutable", b.pretty, f"the owner tag of an isolate is borrowed mutably in {b.pretty}", b.pretty)
        ctx.counts[f"bodies scanned for writes of the owner tag{'/' + feats[0] if feats else ''}"] = n
        request(ctx, p, a)


def flow_fields(p, b, place):
    """does the place (local, projections) end in the owner tag of an isolate"""
    if not isinstance(place, tuple) or len(place) != 2 or not isinstance(place[1], (list, tuple)) or not place[1]:
        return False
    proj = list(place[1])
    l = proj[-1]
    if not (isinstance(l, tuple) and l[0] in ("fld", "field")):
        return False
    return "TaggedIsolate" in str(b.locals.get(place[0], "")) and l[1] in (0, "owner_id", "0")


def run_request(ctx, p, a, R, **kw):
    return ctx.paths(p, a.body, R, max_states=200000, **kw)


def request(ctx, p, a):
    """execute_pinned asks for the request's owner and uses what it got"""
    LMI = re.compile(r"ExecutionContext::(from_cached|new\w*)$")

    def want(e, st, k, n, args, r):
        if k == "call" and n in (a.fn.pretty, a.fn.pretty.split("::", 1)[1]):
            return ("acquire", args, r)
        if k == "call" and LMI.search(n):
            return ("context", n, args)
        return None
    e = run_request(ctx, p, a, Rec(want, inline=lambda b: in_pool(b) and "{closure" in b.pretty))
    for k, st, r in e.exits:
        acq = [ev for ev in st.trace if ev[0] == "acquire"]
        ctx.require(len({ev[2] for ev in acq}) <= 1, "one-isolate", "request", "a request acquires more than one isolate", a.body.pretty)
        for ev in acq:
            o = place_of(ev[1][0])
            ctx.require(o[0] == "fld" and o[2] == "owner_id" and flow.mentions(o, lambda t: isinstance(t, tuple) and len(t) == 2 and t[0] == "arg"), "asks-for-its-owner", "request",
                        f"the isolate is acquired for {flow.show(o)[:80]}, not for the owner in the request", a.body.pretty)
        for ev in st.trace:
            if ev[0] == "context":
                iso = [x for x in ev[2] if flow.mentions(x, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == "isolate")]
                ctx.require(bool(acq) and bool(iso) and all(has(x, acq[0][2]) for x in iso), "runs-on-its-isolate", last(ev[1]),
                            "a request's context is made on an isolate other than the one acquired for it", a.body.pretty)


def blanked(ctx, p):
    if any("pool" in str(n) for n in p.unanalysed):
        ctx.note(f"a body of pool.rs does not type-check against the stand-in types in this tree and is not judged: {p.unanalysed}")
        return True
    return False


def slot_methods(ctx, p, s):
    """take: true exactly when the counter has gone up by one within the limit; give: one step down; free: counter is zero"""
    cnt = ("fld", ("arg", "self"), s.counter)
    for name, b in sorted(s.roles.items()):
        R = Rec(lambda e, st, k, n, a, r: ("atom", atomic(n), a, r) if k == "call" and atomic(n) and n in n and place_of(a[0])[-1] == s.counter else None,
                keep=lambda f: True, limit=1)
        e = ctx.paths(p, b, R, max_states=4000)
        for k, st, r in e.exits:
            if k != "return":
                continue
            muts = [ev for ev in st.trace if ev[1] in MUTATORS]
            w = f"{name}: {[(ev[1],) + tuple(flow.show(x)[:60] for x in ev[2][1:3]) for ev in st.trace]} under {flow.show_facts(st)[:400]}"
            if name in s.free:
                ctx.require(not muts, "free-is-pure", name, "asking whether an isolate is free changes its state", w)
                v = truth_of(r, st)
                ctx.require(v is not None, "free-means-zero", name, "an isolate counts as free although the counter of its users need not be zero", w)
            elif name in s.give:
                ok = len(muts) == 1 and ((muts[0][1] == "store" and const(muts[0][2][1]) is False) or (muts[0][1] == "fetch_sub" and const(muts[0][2][1]) == 1)
                                         or (muts[0][1] == "swap" and const(muts[0][2][1]) is False))
                ctx.require(ok, "give-one", name, "releasing a slot does not take exactly one user off the counter", w)
            else:
                done = [ev for ev in muts if succeeded(st, ev)]
                res = e.truth(st, r) if r is not None else None
                if r[0] == "c":
                    res = r[1]
                good = len(done) == 1 and step_up(st, done[0])
                if res is True:
                    ctx.require(good, "take-one", name, "a slot is reported as taken although the counter has not gone up by one from a free value", w)
                elif res is False:
                    ctx.require(not done, "take-none", name, "a slot is reported as not taken although the counter has gone up", w)
                else:
                    # the result is the outcome of the one exchange itself
                    ctx.require(len(muts) == 1 and has(r, muts[0][3]) and step_up(st, muts[0]), "take-one", name, f"the result of taking a slot is {flow.show(r)[:100]}", w)


def const(t):
    return t[1] if t[0] == "c" else False if t == ("default",) else None


def truth_of(r, st):
    """r is `the counter is zero`"""
    neg = False
    while r[0] == "un" and r[1] == "Not":
        r, neg = r[2], not neg
    if r[0] == "call" and atomic(r[1]) == "load":
        return neg or None
    if r[0] == "op" and r[1] in ("Eq", "Ne") and any(x[0] == "call" and atomic(x[1]) == "load" for x in r[2:4]) and any(const(x) in (0, False) and const(x) is not None for x in r[2:4]):
        return ((r[1] == "Eq") != neg) or None
    if r[0] == "op" and r[1] == "Lt" and const(r[3]) == 1 and not neg:
        return True
    if r[0] == "c" and isinstance(r[1], bool):
        for f, v in st.facts.items():
            if isinstance(f, tuple) and f and f[0] == "call" and atomic(f[1]) == "load":
                if isinstance(v, bool) and v == (not r[1]):
                    return True
                if not isinstance(v, bool) and isinstance(v, int) and (v == 0) == r[1]:
                    return True
            if isinstance(f, tuple) and f and f[0] == "op" and f[1] in ("Eq", "Ne") and isinstance(v, bool) and truth_of(("op", "Eq", f[2], f[3]), st) and ((f[1] == "Eq") == v) == r[1]:
                return True
    return None


def succeeded(st, ev):
    if ev[1] in ("compare_exchange", "compare_exchange_weak", "fetch_update", "try_update"):
        d = st.facts.get(("disc", ev[3]))
        if d is None:
            v = [x for f, x in st.facts.items() if isinstance(f, tuple) and f and f[0] == "call" and has(f, ev[3]) and isinstance(x, bool)]
            return bool(v) and v[0]
        return d == 0
    if ev[1] == "swap":
        return st.facts.get(ev[3]) is not True      # it was free before
    return True


def step_up(st, ev):
    op, a = ev[1], ev[2]
    if op == "swap":
        return const(a[1]) is True
    if op.startswith("compare_exchange"):
        old, new = a[1], a[2]
        if const(old) is False and const(new) is True:
            return True
        if ladd(lin(new), lin(old), -1) != {None: 1}:
            return False
        for f, v in st.facts.items():
            if isinstance(f, tuple) and len(f) == 4 and f[0] == "op" and isinstance(v, bool):
                x, y = f[2], f[3]
                if "max_concurrent" in flow.show(y) and x == old and (f[1], v) in (("Ge", False), ("Lt", True)):
                    return True
                if "max_concurrent" in flow.show(x) and y == old and (f[1], v) in (("Le", False), ("Gt", True)):
                    return True
        return False
    return False


def looked(root):
    """a counted loop asks whether an isolate is free"""
    if root[0] == "call" and root[1].endswith("index") and len(root[2]) == 2 and (root[2][1][0] == "c" or "counter" in str(root[2][1])):
        return ("looked", root[2][1] if root[2][1][0] != "c" else "n")
    return None


def known_free(ctx, e, s, ev, trace=()):
    """the element a removal takes out of the pool is known to be free there"""
    _, n, args, res, facts = ev
    what = last(n)
    if what in ("remove", "swap_remove", "pop"):
        ix = args[1] if len(args) > 1 else None
        if ix is not None:
            for t in flow.walk(ix):
                if isinstance(t, tuple) and t and t[0] == "old" and t[-1] == "free":
                    return True
            for f, v in facts:
                if v is True and s.kind(f[1]) == "free":
                    r = s.root(f[2][0])
                    if flow.mentions(r, lambda t: t == ix) or any(isinstance(t, tuple) and len(t) > 3 and t[0] == "call" and t[1].endswith("next") and has(r, t) for t in flow.walk(ix)):
                        return True
            if ("looked", "n" if ix[0] == "c" else ix) in trace:
                return True
            return by_closures(ctx, e, s, ix)
        return False
    if what in ("retain", "retain_mut"):
        pr = predicate(e, ev_state(ev), args[1])
        return pr is not None and all(goes(s, r, st, False) for r, st in pr[1])
    return False


class _S:
    heap = {}


def ev_state(ev):
    return _S


def goes(s, r, st, taken):
    """for a predicate closure: whenever its result is `taken`, the element is free"""
    neg = False
    x = r
    while x[0] == "un" and x[1] == "Not":
        x, neg = x[2], not neg
    if x[0] == "call" and s.kind(x[1]) == "free":
        return (not neg) == taken
    if x[0] == "c" and isinstance(x[1], bool):
        if (x[1] != neg) != taken:
            return True
        return any(isinstance(f, tuple) and f and f[0] == "call" and s.kind(f[1]) == "free" and v is True for f, v in st.facts.items())
    return any(isinstance(f, tuple) and f and f[0] == "call" and s.kind(f[1]) == "free" and v is True for f, v in st.facts.items())


def by_closures(ctx, e, s, ix):
    for t in flow.walk(ix):
        if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and re.search(r"Iterator::(filter|position|find|find_map|filter_map|rposition)$", t[1]):
            for c in t[2]:
                if c[0] == "agg" and c[1].startswith("{"):
                    pr = predicate(e, _S, c)
                    if pr and all(goes(s, r, st, True) for r, st in pr[1]):
                        return True
    return False


@check("P14", "typestate over MIR: take / hand out / give back protocol of isolate slots on every path, cancellation and unwinding included",
       "Decides the slot methods, the acquire function and the whole request path in both concurrency modes; memory orders are not judged.")
def p14(ctx):
    """The methods of the slot state are followed on all paths: taking succeeds exactly when the counter went up by one within
    its limit, giving takes one user off, free means zero users.  Every path of the acquire function ends with exactly the slot of
    the returned isolate taken and no other; isolates leave the pool only where the path knows they are free.  On every path of
    execute_pinned - return, error, cancellation at an await point, unwinding - an acquired isolate is given back exactly once."""
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        if blanked(ctx, p):
            continue
        a = Acquire(ctx, p)
        s = a.s
        slot_methods(ctx, p, s)
        removed = 0
        for st, r in a.explore(ctx):
            got = a.got(r)
            w = f"{a.fn.pretty} under {flow.show_facts(st)[:300]}"
            took = a.taken(st) + [ev[1] for ev in st.trace if ev[0] == "take" and any(same_isolate(st, x, ev[1]) for x in got if fresh(x)) and ev[1] not in a.taken(st)]
            given = [ev[1] for ev in st.trace if ev[0] == "give"]
            for x in got:
                n = len([t for t in took if same_isolate(st, x, t)])
                ctx.require(n == 1, "handed-out-taken", "fresh" if fresh(x) else "reused", f"an isolate is handed out with its slot taken {n} times instead of once", w)
            for t in took:
                ctx.require(any(same_isolate(st, x, t) for x in got) or t in given, "no-slot-kept", a.fn.pretty, "a slot stays taken although its isolate is not handed out", w)
            ctx.require(not any(ev[0] == "leaked" for ev in st.trace), "no-slot-kept", a.fn.pretty, "a slot taken in an earlier round of a loop stays taken although its isolate is not handed out", w)
            for ev in st.trace:
                if ev[0] == "rm":
                    removed += 1
                    ctx.require(known_free(ctx, a.e, s, ev, st.trace), "evicts-free", a.fn.pretty, f"{last(ev[1])} takes an isolate out of the pool that may be in use", w)
        gives_back(ctx, p, a)
        trims(ctx, p, a)


def gives_back(ctx, p, a):
    s = a.s

    def want(e, st, k, n, args, r):
        if k == "call" and n in (a.fn.pretty, a.fn.pretty.split("::", 1)[1]):
            return ("acquire", r)
        if k == "call" and s.kind(n) == "give":
            return ("give", s.root(args[0]))
        if k == "call" and s.kind(n) == "take":
            return ("take", s.root(args[0]))
        return None
    inl = lambda b: in_pool(b) and b.pretty in a.giving and b.pretty not in s.roles and b.pretty not in a.taking
    e = run_request(ctx, p, a, Rec(want, inline=inl, limit=3, keep=lambda f: flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1] in (a.fn.pretty, a.fn.pretty.split("::", 1)[1])) and f[0] == "disc" and f[1][0] == "call"), unwind=True, cancel=True)
    n = 0
    for k, st, r in e.exits:
        acq = [ev[1] for ev in st.trace if ev[0] == "acquire"]
        give = [ev[1] for ev in st.trace if ev[0] == "give"]
        got = acq and (st.facts.get(("disc", acq[0])) == 1)
        none = not acq or st.facts.get(("disc", acq[0])) == 0
        how = {"return": "returns", "cancel": "is cancelled", "unwind": "panics"}.get(k, k)
        w = f"{a.body.pretty}, {k}: {[ev[0] for ev in st.trace]} under {flow.show_facts(st)[:300]}"
        if got:
            n += 1
            ctx.require(len(give) == 1 and has(give[0], acq[0]), "given-back-once", k, f"a request that {how} gives its slot back {len(give)} times", w)
        elif none:
            ctx.require(not give, "nothing-to-give", k, f"a request that {how} gives back a slot it never acquired", w)
        else:
            ctx.require(False, "acquired-known", k, "the request path goes on without having checked whether it got an isolate", w)
        ctx.require(not any(ev[0] == "take" for ev in st.trace), "taken-by-acquire-only", k, "the request path takes a slot besides the one it acquired", w)
    ctx.floor(f"ends of requests holding an isolate ({a.p and ('multiplexing' if 'active' in s.counter else 'exclusive')})", n, 10)
    # nobody else takes or gives
    known = {EXEC, "pool::execute_pinned"}
    for name in sorted((a.taking | a.giving) - set(s.roles)):
        if name in known or name not in p.by_pretty:
            continue
        if name in a.taking and name not in a.giving:
            ok = name == a.fn.pretty or calls_it(p, name, a.taking)
        else:
            ok = " as Drop>::drop" in name or calls_it(p, name, a.giving)
        ctx.require(ok, "only-requests", name, f"{name} takes or gives back slots outside the request path", name)


def calls_it(p, name, among):
    short = name.split("::", 1)[1]
    for b in p.bodies.values():
        if b.pretty in among or b.pretty.startswith("pool::"):
            if not outside_tests(b) or b.pretty == name:
                continue
            if "{closure" in name and name.startswith(b.pretty + "::"):
                return True
            for k, t in calls_of(b):
                if mir.strip_generics(t[2]) in (name, short):
                    return True
    return False


def trims(ctx, p, a):
    """what happens to the pool when a slot is given back: only free isolates leave it"""
    s = a.s
    for b in list(p.bodies.values()):
        if not in_pool(b) or "isolates" not in b.text and "Vec" not in b.text:
            continue
        if b.pretty in a.taking or b.pretty in (EXEC, "pool::execute_pinned") or " as Drop>" in b.pretty:
            continue
        hits = [t for k, t in calls_of(b) if REMOVES.search(mir.strip_generics(t[2])) and "TaggedIsolate" in str(b.locals)]
        if not hits:
            continue

        def want(e, st, k, n, args, r):
            if k == "call" and s.kind(n) == "free":
                return looked(s.root(args[0]))
            if k == "call" and REMOVES.search(n) and args and "isolates" in flow.show(args[0]):
                return ("rm", n, args, r, tuple(sorted((kv for kv in st.facts.items() if isinstance(kv[0], tuple) and kv[0][0] == "call" and s.kind(kv[0][1]) == "free"), key=repr)))
            return None

        def age(e, st, o):
            for f, v in st.facts.items():
                if isinstance(f, tuple) and f and f[0] == "call" and s.kind(f[1]) == "free" and v is True and flow.mentions(f, lambda t: t == o):
                    return ("free",)
            return ()
        R = Rec(want, keep=lambda f: True, limit=2, inline=lambda b: in_pool(b) and b.pretty not in s.roles, call=search)
        R.age = age
        e = ctx.paths(p, b, R, max_states=60000)
        for k, st, r in e.exits:
            for ev in st.trace:
                if ev[0] == "rm":
                    ctx.require(known_free(ctx, e, s, ev, st.trace), "evicts-free", b.pretty, f"{last(ev[1])} takes an isolate out of the pool that may be in use", f"{b.pretty} under {flow.show_facts(st)[:300]}")


IDENTITY = ("worker_id", "version", "env_updated_at")


@check("P17", "path enumeration over MIR: equality facts at every reuse of a warm context, outcome facts at every insertion",
       "Decides the request path for all contents of the cache and all outcomes; trusts that the identifiers in the request identify the deployment.")
def p17(ctx):
    """Every path of execute_pinned is followed.  Where a context taken out of the warm cache becomes the execution context, the
    path has compared worker, code version and environment revision of exactly that entry with the request's and found its reuse
    count below the limit; it is reset successfully before the event runs.  Where an entry is put into the cache, its context comes
    from a run that returned Ok and whose background work drained Ok, it carries the identifiers of the request (or of the entry it
    came from) and a reuse count that went up."""
    p = ctx.prog("full", ())
    if blanked(ctx, p):
        return
    a = Acquire(ctx, p)
    body = a.body
    ty = guard_type(p, "CachedContext")
    names = [f[0] for f in p.adt(ty)["variants"][0][1]]
    for n in IDENTITY:
        if n not in names:
            raise Missing(f"role:{n}", f"CachedContext has no field {n}")
    TAKES = re.compile(r"Vec::(remove|swap_remove|pop|drain)$")

    def want(e, st, k, n, args, r):
        if k != "call":
            return None
        if re.search(r"ExecutionContext::from_cached$", n):
            return ("reuse", tuple(args), r, tuple(st.facts.items()))
        if re.search(r"ExecutionContext::new\w*$", n):
            return ("cold", r)
        if re.search(r"ExecutionContext::(reset|exec|drain_waituntil|into_parts)$", n):
            return (last(n), tuple(args), r)
        if re.search(r"Vec::(push|insert|push_mut)$", n) and any(t for x in args for t in flow.walk(x) if isinstance(t, tuple) and len(t) == 5 and t[0] == "agg" and t[1].endswith("CachedContext")):
            return ("insert", tuple(args), r, tuple(st.facts.items()))
        return None
    cmp = lambda f: isinstance(f, tuple) and (any(x in flow.show(f) for x in ("reuse_count",) + IDENTITY) or f[0] == "disc" and any(x in str(f[1])[:6000] for x in ("reset", "::exec", "drain_waituntil")))
    e = run_request(ctx, p, a, Rec(want, keep=cmp, limit=2, inline=lambda b: in_pool(b) and b.pretty not in a.taking and b.pretty not in a.giving and "drop_under_lock" not in b.pretty and "ensure_pool" not in b.pretty or "::{closure" in b.pretty and b.pretty.startswith(EXEC)))
    reused, inserted, seen = 0, 0, set()
    for k, st, r in e.exits:
        for i, ev in enumerate(st.trace):
            if ev[0] == "reuse" and (ev, 0) not in seen:
                seen.add((ev, 0))
                reused += 1
                reuse(ctx, e, body, ev, TAKES)
            if ev[0] == "insert":
                inserted += 1
                insert(ctx, e, body, st, i, ev)
            if ev[0] == "exec":
                ec = base(ev[1][0])
                warm = [x for x in st.trace[:i] if x[0] == "reuse" and has(ec, x[2])]
                if warm:
                    rs = [x for x in st.trace[:i] if x[0] == "reset" and has(base(x[1][0]), warm[0][2])]
                    ctx.require(any(st.facts.get(("disc", x[2])) == 0 for x in rs), "reset-before-run", "exec", "a warm context runs the next request's event without having been reset successfully", body.pretty)
    ctx.floor("reuses of a warm context on the paths", reused, 1)
    ctx.floor("insertions into the warm cache on the paths", inserted, 2)


def base(t):
    return place_of(t)


def reuse(ctx, e, body, ev, TAKES):
    _, args, res, facts = ev
    f = dict(facts)
    src = None
    for x in args:
        for t in flow.walk(x):
            if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and (TAKES.search(t[1]) or t[1] == "<closure>"):
                src = t
    ctx.require(src is not None, "from-the-cache", "reuse", "the reused context does not visibly come out of the warm cache", body.pretty)
    if src is None:
        return
    ix = src[2][-1] if len(src[2]) > 1 else None
    nexts = [t for t in flow.walk(ix) if isinstance(t, tuple) and len(t) == 4 and t[0] == "call"] if ix is not None else []

    class St:
        pass
    s = St()
    s.facts = f
    for n in IDENTITY:
        req = lambda t, n=n: t[0] == "fld" and t[2] == n and not any(flow.mentions(t, lambda u: u == c) for c in nexts)
        ent = lambda t, n=n: t[0] == "fld" and t[2] == n and any(flow.mentions(t, lambda u: u == c) for c in nexts)
        ok = eq_fact(s, req, ent) or chosen(ctx, e, ix, lambda st, r, n=n: implied(st, r, lambda t: t[0] == "fld" and t[2] == n))
        ctx.require(ok, "same-identity", n, f"a warm context is reused although its {n} need not be the request's", f"{body.pretty} under {flow.show_facts(s)[:400] if hasattr(s, 'facts') else ''}")
    ok = below(s) or chosen(ctx, e, ix, lambda st, r: below(st, r))
    ctx.require(ok, "reuse-limit", "reuse", "a warm context is reused although its reuse count need not be below the limit", body.pretty)


def below(st, r=None):
    facts = list(st.facts.items())
    if r is not None and r[0] == "op":
        facts.append((r, True))
    for f, v in facts:
        if isinstance(f, tuple) and len(f) == 4 and f[0] == "op" and isinstance(v, bool):
            x, y = flow.show(f[2]), flow.show(f[3])
            if "reuse_count" in x and "reuse_count" not in y and (f[1], v) in (("Lt", True), ("Ge", False), ("Le", True), ("Gt", False)):
                return True
            if "reuse_count" in y and "reuse_count" not in x and (f[1], v) in (("Gt", True), ("Le", False), ("Ge", True), ("Lt", False)):
                return True
    return False


def implied(st, r, side):
    if r is not None and r[0] == "op" and r[1] == "Eq" and all(side(place_of(x)) for x in r[2:4]):
        return True
    return eq_fact(st, side, side)


def chosen(ctx, e, ix, ok):
    """the index comes from a search whose predicate implies the condition"""
    if ix is None:
        return False
    for t in flow.walk(ix):
        if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and re.search(r"Iterator::(filter|position|find|find_map|filter_map|rposition)$", t[1]):
            for c in t[2]:
                if c[0] == "agg" and c[1].startswith("{"):
                    pr = predicate(e, _S, c)
                    if pr and all(ok(st, r) for r, st in pr[1] if not (r[0] == "c" and r[1] is False) and not (r[0] == "agg" and r[1].endswith("None"))):
                        return True
    return False


def insert(ctx, e, body, st, i, ev):
    _, args, res, facts = ev
    f = dict(facts)
    w = f"{body.pretty} under {flow.show_facts(st)[:300]}"
    agg = [t for x in args for t in flow.walk(x) if isinstance(t, tuple) and len(t) == 5 and t[0] == "agg" and t[1].endswith("CachedContext")][0]
    g = dict(zip(agg[4], agg[3]))
    parts = [x for x in st.trace[:i] if x[0] == "into_parts" and has(g["request"], x[2])]
    ctx.require(bool(parts), "own-context", "insert", "the context put into the warm cache does not come out of an execution context of this request", w)
    if not parts:
        return
    made = [x[2] for x in st.trace[:i] if x[0] in ("reuse",) and has(base(parts[0][1][0]), x[2])] + [x[1] for x in st.trace[:i] if x[0] == "cold" and has(base(parts[0][1][0]), x[1])]
    ctx.require(bool(made), "own-context", "insert", "the context put into the warm cache is not the one the request ran in", w)
    if not made:
        return

    def went_ok(kind):
        for x in st.trace[:i]:
            if x[0] == kind and has(base(x[1][0]), made[0]):
                for q, v in f.items():
                    if isinstance(q, tuple) and q[0] == "disc" and v == 0 and strip_await(q[1]) == x[2]:
                        return True
                    if isinstance(q, tuple) and q[0] == "call" and re.search(r"is_(ok|err)$", q[1]) and v is (q[1].endswith("is_ok")) and has(q, x[2]):
                        return True
        return False
    warm = any(x[0] == "reuse" and x[2] == made[0] for x in st.trace[:i])
    ctx.require(went_ok("exec"), "after-ok", "exec", "a context is put into the warm cache although the request's event need not have ended normally", w)
    ctx.require(went_ok("drain_waituntil"), "after-ok", "drain", "a context is put into the warm cache although its background work need not have drained", w)
    took = [x for x in st.trace[:i] if x[0] == "reuse"]
    for n in IDENTITY + ("ops",):
        t = place_of(g[n])
        own = t[0] == "fld" and t[2] == n
        ctx.require(own, "keeps-identity", n, f"a context is put into the warm cache under {flow.show(t)[:80]} instead of its own {n}", w)
    rc = lin(g["reuse_count"])
    up = rc.get(None, 0) >= 1 and all(c > 0 for c in rc.values())
    if warm:
        up = up and any("reuse_count" in flow.show(s) for s in rc if s is not None)
    ctx.require(up, "reuse-counted", "warm" if warm else "cold", f"the reuse count of the stored context is {show_lin(rc)}: the reuse limit would never be reached", w)


def strip_await(t):
    while isinstance(t, tuple) and t and (t[0] == "call" and t[1] == "await" or len(t) == 3 and t[0] == "fld" and t[2] == "Ready.0"):
        t = t[2][0] if t[0] == "call" else t[1]
    return t


def compares(st, rx_a, rx_b, want=None):
    """what the path's facts say about A < B: True, False or None; with want, whether some fact says so"""
    for f, v in st.facts.items():
        if isinstance(f, tuple) and len(f) == 4 and f[0] == "op" and isinstance(v, bool) and f[1] in ("Lt", "Le", "Gt", "Ge"):
            x, y = flow.show(f[2]), flow.show(f[3])
            if re.search(rx_a, x) and re.search(rx_b, y):
                if f[1] in ("Lt", "Ge"):
                    if want is None or want == (v == (f[1] == "Lt")):
                        return v == (f[1] == "Lt")
            if re.search(rx_a, y) and re.search(rx_b, x):
                if f[1] in ("Gt", "Le"):
                    if want is None or want == (v == (f[1] == "Gt")):
                        return v == (f[1] == "Gt")
    return None


@check("P15", "path enumeration over MIR: limit facts on every path that creates an isolate, and on every end of the trimming loop",
       "Decides which comparisons guard creation and what giving back leaves behind; how many isolates exist is not counted across calls, and whether the eviction scan overlooks an idle isolate is not decided.")
def p15(ctx):
    """Every path of the acquire function that builds an isolate knows that the owner has no limit or is below it (counted over
    isolates of that owner), and that the pool is below its size, or has evicted an isolate, or has found the pool full with nothing
    to evict; eviction is attempted at all.  Every path of giving a slot back afterwards leaves the pool within its size or has
    looked at every isolate."""
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        if blanked(ctx, p):
            continue
        a = Acquire(ctx, p)
        made = evicted = 0
        for st, r in a.explore(ctx):
            if not any(fresh(x) for x in a.got(r)):
                continue
            made += 1
            w = f"{a.fn.pretty} under {flow.show_facts(st)[:500]}"
            nolimit = any(isinstance(f, tuple) and f[0] == "disc" and v == 0 and "max_per_owner" in flow.show(f[1])[-40:] for f, v in st.facts.items())
            below_owner = compares(st, r"count|owner", r"max_per_owner") is True
            ctx.require(nolimit or below_owner, "owner-limit", "create", "an isolate is created although its owner need not be below the per-owner limit", w)
            rm = any(ev[0] == "rm" for ev in st.trace)
            evicted += rm
            room = compares(st, r"len\(|isolates", r"max_isolates")
            ctx.require(rm or room is not None, "pool-limit", "create", "an isolate is created without comparing the pool's size with its limit", w)
            for f in st.facts:
                for t in flow.walk(f) if isinstance(f, tuple) else ():
                    if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and re.search(r"Iterator::(filter|count)$", t[1]):
                        for c in t[2]:
                            if c[0] == "agg" and c[1].startswith("{"):
                                pr = predicate(a.e, st, c)
                                if pr:
                                    ok = all(implied_owner(s2, r2) for r2, s2 in pr[1] if not (r2[0] == "c" and r2[1] is False))
                                    ctx.require(ok, "counts-the-owner", "create", "the isolates counted against the owner's limit are not the owner's", w)
        ctx.floor(f"paths that create an isolate{'/' + feats[0] if feats else ''}", made, 3)
        ctx.require(evicted > 0, "evicts", "create", "a full pool never evicts an idle isolate before it grows", a.fn.pretty)
        leaves_trimmed(ctx, p, a)


def implied_owner(st, r):
    own = lambda t: t[0] == "fld" and t[2] == "owner_id"
    oth = lambda t: not own(t)
    if r[0] == "op" and r[1] == "Eq":
        x, y = place_of(r[2]), place_of(r[3])
        return (own(x) and oth(y)) or (own(y) and oth(x))
    return eq_fact(st, own, oth)


def leaves_trimmed(ctx, p, a):
    """after a slot is given back"""
    s = a.s
    roots = [n for n in sorted(a.giving - set(s.roles)) if n in p.by_pretty and not n.startswith("pool::execute_pinned") and n not in a.taking and in_pool(p.by_pretty[n])]
    drops = [n for n in roots if " as Drop>::drop" in n]
    tops = drops or [n for n in roots if "TaggedIsolate::" not in n]
    n = 0
    for name in tops:
        b = p.by_pretty[name]

        def want(e, st, k, nm, args, r):
            if k == "call" and s.kind(nm) == "give":
                return ("give",)
            if k == "call" and s.kind(nm) == "free":
                return ("looked",)
            return None
        e = ctx.paths(p, b, Rec(want, keep=lambda f: "isolates" in str(f) or f[0] == "disc", limit=1, inline=lambda x: in_pool(x) and x.pretty not in s.roles, call=search), max_states=60000)
        for k, st, r in e.exits:
            if k != "return" or ("give",) not in st.trace:
                continue
            n += 1
            gone = any(isinstance(f, tuple) and f[0] == "disc" and ((v == 1 and "access" in flow.show(f[1])) or (v == 0 and "tls" in flow.show(f[1])[:6])) for f, v in st.facts.items())
            fine = compares(st, r"max_isolates", r"len\(|isolates", False) is False or ends_scan(st) or gone or not touches(e, st)
            ctx.require(fine, "trims", name, "a slot is given back and the pool stays over its size although an idle isolate may be left in it", f"{name} under {flow.show_facts(st)[:400]}")
        ctx.require(any("isolates" in flow.show(f) for k, st, r in e.exits for f in st.facts if isinstance(f, tuple)), "trims", name + ":ever",
                    "giving a slot back never reclaims isolates above the pool's size", name)
    ctx.floor(f"ends of giving a slot back ({s.counter})", n, 2)


def touches(e, st):
    return any("isolates" in flow.show(f) for f in st.facts if isinstance(f, tuple))


def ends_scan(st):
    for f, v in st.facts.items():
        if isinstance(f, tuple) and len(f) == 4 and f[0] == "op" and isinstance(v, bool) and f[1] in ("Lt", "Ge", "Gt", "Le", "Eq", "Ne") and "max_isolates" not in flow.show(f):
            x, y = "isolates" in flow.show(f[2]), "isolates" in flow.show(f[3])
            if y and not x and (f[1], v) in (("Lt", False), ("Ge", True), ("Eq", True), ("Ne", False)):
                return True
            if x and not y and (f[1], v) in (("Gt", False), ("Le", True), ("Eq", True), ("Ne", False)):
                return True
        if isinstance(f, tuple) and f[0] == "disc" and v == 0 and "isolates" in flow.show(f[1]):
            return True
        if isinstance(f, tuple) and f[0] == "call" and v is False and re.search(r"Iterator::(find|r?position)", str(f[2])):
            return True
    return ("nothing",) in st.trace
