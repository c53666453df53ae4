"""P24: what is left of the previous request when a context serves the next one."""
import re
from .. import flow, js, mir
from ..check import check, Missing
from ..rlib import *
from .js_glue import top, scripts
from .pool import calls_of, outside_tests, FEATURES
from .runs import successors

HOLDS = re.compile(r"\b(HashMap|HashSet|BTreeMap|BTreeSet|VecDeque|Vec|Option|SlotMap|IndexMap)<")
FLAG = re.compile(r"\bAtomicBool\b|\bCell<bool>")
INBOX = re.compile(r"\b(Unbounded)?Receiver<")
EMPTIES = re.compile(r"::(clear|drain)$|mem::(take|replace|swap)$|::(take|replace)$")
FILLS = re.compile(r"::(insert|push|push_back|entry|extend|send|replace_with)$")
EMPTY = re.compile(r"^(None\(\)|Default::default\(.*|.*::new\(\)|.*::default\(\)|.*::with_capacity\(.*)$")
EVENTS = ("addEventListener",)


def adt_of(p, ty):
    """the crate's struct inside Arc/Rc/..., if that is what the field is"""
    t = re.sub(r"\s", "", ty)
    t = re.sub(r"^(std::\w+::|alloc::\w+::)?(Arc|Rc|Box)<(.*)>$", r"\3", t)
    if "<" in t:
        return None
    last = t.split("::")[-1]
    c = [n for n, d in p.defs.items() if n.split("::")[-1] == last and d["kind"] == "struct"]
    return c[0] if len(c) == 1 else None


def per_request(p, ty, prefix=()):
    """(path, what) of everything a request can leave behind in a value of this type"""
    d = p.adt(ty)
    if not d:
        raise Missing(f"role:{ty}", f"no struct {ty}")
    for n, t, *_ in d["variants"][0][1]:
        t = t.replace(" ", "")
        if FLAG.search(t):
            yield prefix + (n,), "flag"
        elif INBOX.search(t) and not HOLDS.search(t):
            yield prefix + (n,), "inbox"
        elif HOLDS.search(t):
            yield prefix + (n,), "holder"
        else:
            inner = adt_of(p, t)
            if inner:
                yield from per_request(p, inner, prefix + (n,))


def names(t):
    out, t = [], place_of(t)
    while isinstance(t, tuple) and len(t) == 3 and t[0] == "fld":
        out.append(t[2])
        t = t[1]
    return tuple(reversed(out))


def under(term, path):
    q = names(term)
    return len(q) >= len(path) and q[-len(path):] == path


class Reset:
    """the Rust side of the reset, path by path"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = p = ctx.prog("full", ())
        cand = [b for n, b in p.by_pretty.items() if re.search(r"(^|::)ExecutionContext::reset$", n)]
        if len(cand) != 1:
            raise Missing("role:reset", "no function ExecutionContext::reset")
        self.b = cand[0]
        R = Rec(lambda e, st, k, n, a, r: (k, n, tuple(a), r),
                keep=lambda f: isinstance(f, tuple) and f[0] == "disc" and any(x in str(f)[:6000] for x in ("try_recv", "::run")))
        self.e = ctx.paths(p, self.b, R, max_states=60000)
        self.text = set()

    def check(self):
        ctx, p = self.ctx, self.p
        req = list(per_request(p, "request_context::RequestContext"))
        ctx.counts["pieces of per-request state"] = len(req)
        ctx.floor("fields that hold per-request state", len(req), 8)
        oks = 0
        for kind, st, res in self.e.exits:
            if kind != "return":
                continue
            r = self.e.strip(st, res) if res is not None else res
            if not flow.show(r).startswith("Ok"):
                continue
            oks += 1
            self.ok_exit(st, req)
        ctx.floor("successful ways through the reset", oks, 1)

    def ok_exit(self, st, req):
        ctx, b = self.ctx, self.b
        lifted = False
        for ev in st.trace:
            if ev[0] == "call" and isinstance(ev[1], str) and ev[1].endswith("cancel_terminate_execution"):
                lifted = True
            if ev[0] == "call" and re.search(r"script::run$|Script::run$", ev[1]):
                ctx.require(lifted, "termination-lifted", "run", "the reset runs script while a termination of the previous request may still be pending, so that it cannot succeed", b.pretty)
                ctx.require(st.facts.get(("disc", ev[3])) == 1, "script-succeeded", "run", "the reset succeeds although its script need not have run to its end", b.pretty)
            if ev[0] == "call" and re.search(r"v8::string::new$|v8::String::new$", ev[1]):
                for a in ev[2]:
                    for t in flow.walk(a):
                        for x in t if isinstance(t, tuple) else (t,):
                            if isinstance(x, str) and "globalThis" in x:
                                self.text.add(x)
        ctx.require(lifted, "termination-lifted", "any", "a reused context can still carry the termination of the previous request", b.pretty)
        for path, what in req:
            done = False
            for ev in st.trace:
                if ev[0] == "call":
                    hit = [a for a in ev[2] if under(a, path)]
                    if not hit:
                        continue
                    if what == "flag" and atomic(ev[1]) in ("store", "swap"):
                        done = flow.show(self.e.strip(st, ev[2][1])) == "False"
                    elif what == "flag" and ev[1].endswith("::set"):
                        done = flow.show(self.e.strip(st, ev[2][1])) == "False"
                    elif what == "inbox" and ev[1].endswith("try_recv"):
                        done = st.facts.get(("disc", ev[3])) == 1
                    elif what == "holder" and EMPTIES.search(ev[1]):
                        done = not ev[1].endswith("replace") or EMPTY.search(flow.show(ev[2][-1])) is not None
                    elif FILLS.search(ev[1]) and what != "flag":
                        done = False
                elif ev[0] == "store" and under(ev[1] if not isinstance(ev[1], str) else ("arg", "?"), path):
                    done = self.emptied(ev, what)
                elif ev[0] == "store" and isinstance(ev[1], tuple) and under(ev[1], path):
                    done = self.emptied(ev, what)
            ctx.require(done, f"{what}-discarded", ".".join(path), f"the reset leaves the previous request's {'.'.join(path)} behind"
                        + (" (its messages reach the next request)" if what == "inbox" else ""), b.pretty)

    def emptied(self, ev, what):
        v = flow.show(ev[2][0]) if ev[2] else ""
        return v == "False" if what == "flag" else what == "inbox" or EMPTY.search(v) is not None or ev[2][:1] == (("default",),)


def api(w):
    """ids of the functions that scripts register their handlers with: what they set is the worker's, not a request's"""
    out = set()
    for n in EVENTS:
        f = w.base.heap.get((js.G, n))
        if f is not None and f[0] == "fn":
            out.add(f[1])
    return out


FN = ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression")


def at_event_time(w):
    """global -> ways in which functions of the embedded scripts change it while a request is served"""
    out, skip = {}, api(w)

    def is_g(n):
        return n["type"] == "MemberExpression" and not n["computed"] and n["object"].get("name") in ("globalThis", "self") and n["property"]["name"]

    def go(n, infn):
        if isinstance(n, list):
            for x in n:
                go(x, infn)
        elif isinstance(n, dict):
            t = n.get("type")
            if t in FN and n.get("id") in skip:
                return      # also what is defined inside: handlers bound at registration are followed below
            if infn and t in ("AssignmentExpression", "UpdateExpression"):
                g = is_g(n.get("left") or n.get("argument"))
                if g:
                    out.setdefault(g, set()).add(n["operator"])
            if infn and t == "CallExpression" and n["callee"]["type"] == "MemberExpression" and not n["callee"]["computed"] and n["callee"]["property"]["name"] in js.MUT:
                g = is_g(n["callee"]["object"])
                if g:
                    out.setdefault(g, set()).add(n["callee"]["property"]["name"])
            for k, v in n.items():
                if k != "loc":
                    go(v, infn or t in FN)

    def inner(n, depth):
        """functions defined inside the registration functions run at event time"""
        if isinstance(n, list):
            for x in n:
                inner(x, depth)
        elif isinstance(n, dict):
            d = depth + (n.get("type") in FN)
            if d > 1:
                go(n, True)
                return
            for k, v in n.items():
                if k != "loc":
                    inner(v, d)
    for s in w.p.ordered():
        go(s.ast, False)
    for i in skip:
        inner(w.p.nodes[i], 0)
    return {g: ops for g, ops in out.items() if g.startswith("__") and ops != {"++"}}


OLD = lambda g: ("arg", f"the previous request's {g}")
KEY = ("arg", "a pending timer")


class Script:
    max_join = None

    def __init__(self, table):
        self.table = table

    def keep_fact(self, f):
        return True

    def survives(self, e, st, b, f, v):
        return b == js.G or b[0] == "arg"

    def bumps(self, e, st, callee, args):
        return False

    def throws(self, e, st, callee, args):
        return False

    def call(self, e, st, f, this, args, n, out):
        if f == ("global", "__nativeClearTimer") or f[0] == "native" or f[:1] == ("arg",) and "__nativeClearTimer" in str(f):
            a = args[0] if args else js.UNDEF
            if a == KEY:
                self.mark(st, "walked")
            elif self.mine(a):
                st.data = tuple(x for x in st.data if x != "due")
            return [(st, js.UNDEF)]
        return None

    def mark(self, st, x):
        st.data = tuple(sorted(set(st.data) | {x}))

    def mine(self, t):
        return str(self.table) in str(t)

    def event(self, e, st, kind, n, *args):
        if kind not in ("elem", "loopend") or not args or not self.mine(args[0]):
            return
        if "due" in st.data:
            self.mark(st, "missed")
        self.mark(st, "due" if kind == "elem" else "walked")

    def method(self, e, st, b, k, f, args, n, out):
        if k == "forEach" and b == self.table and args and args[0][0] == "fn" and st.heap.get((b, "size")) != ("c", 0):
            return [(s, js.UNDEF) for s, _ in e.call(st, args[0], js.UNDEF, [("arg", "the callback of a pending timer"), KEY, b], n, out)]
        if k == "clear" and b == self.table:
            self.mark(st, "kept" if "walked" in st.data and not {"missed", "due"} & set(st.data) else "lost")
        return None


def js_side(ctx, text):
    w = js.world(ctx)
    norm = lambda s: re.sub(r"\s|\\+n|['\"\\]", "", s)
    want = {norm(t) for t in text}
    scs = [s for s in w.p.scripts if s.ast and norm(s.text) in want]
    if not want:        # a named constant: the embedded script that takes back a response
        late = set(map(id, w.p.ordered()))
        scs = [s for s in w.p.scripts if s.ast and s.ast["type"] == "Program" and id(s) not in late and all(
            re.search(r"(?m)^\s*globalThis\." + g + r"\s*=[^=]", s.text) for g in ("__lastResponse", "__requestComplete"))]
    if len({norm(s.text) for s in scs}) != 1:
        raise Missing("role:reset-script", "the script that the reset runs is not one of the embedded scripts")
    mine = at_event_time(w)
    ctx.floor("script globals that a request changes", len(mine), 5)
    early, late = scripts(w)
    base = js.Engine(w.p)
    base.setup(early)
    initial = {}
    e0 = w.base.heap if hasattr(w.base, "heap") else base.base.heap
    lists = {g: e0.get((js.G, g)) for g, ops in mine.items() if ops & js.MUT}
    for g, v in lists.items():
        if v is None or v[0] != "obj":
            raise Missing(f"role:{g}", f"the shared collection {g} is not created by the setup scripts")
    table = lists.get("__timerCallbacks")
    for s in top(base, base.base.fork(), late):
        for g in mine:
            initial.setdefault(g, set()).add(s.heap.get((js.G, g)))
    R = Script(table)
    e = w.engine_for(R)
    st = e.base.fork()
    for g in mine:
        st.heap[(js.G, g)] = lists.get(g, OLD(g))
    for v in lists.values():        # with whatever the previous request put there
        for k in [k for k in st.heap if k[0] == v and k[1] in ("size", "length", "$items")]:
            del st.heap[k]
        st.heap[(v, "size")] = OLD("size")
    for s in top(e, st, scs[:1]):
        for g, ops in sorted(mine.items()):
            v = s.heap.get((js.G, g))
            if ops & js.MUT:
                size = s.heap.get((lists[g], "size"), s.heap.get((lists[g], "length")))
                fresh = v is not None and v[0] == "obj" and v != lists[g]
                ctx.require(fresh or v == lists[g] and size == ("c", 0), "collection-emptied", g, f"the reset leaves entries of the previous request in {g}", str(scs[0]))
            else:
                good = v is not None and (v[0] == "c" or v in (js.UNDEF, js.NULL, js.FALSE)) and v != OLD(g)
                init = {x for x in initial.get(g, ()) if x is not None}
                low = lambda x: x in (js.UNDEF, js.NULL, js.FALSE) or x[0] == "c" and not x[1]
                same_kind = not init or v in init or low(v) and all(low(x) for x in init)
                ctx.require(good and same_kind, "global-restored", g, f"after the reset {g} is {js.show(v) if v else 'unset'}, which is not the state in which a fresh context starts", str(scs[0]))
        if "__timerCallbacks" in mine:
            ok = "lost" not in s.data and "walked" in s.data and "missed" not in s.data and "due" not in s.data
            ctx.require(ok, "timers-cancelled", "timers", "the reset forgets the pending timers of the previous request without cancelling them in the event loop, where intervals run for ever", str(scs[0]))
    ctx.counts["script globals"] = len(mine)
    for g, o in sorted(mine.items()):
        ctx.sample(f"globalThis.{g} changed at event time by {'/'.join(sorted(o))}; restored")


def memory_flag(ctx, p):
    """the out-of-memory flag of the isolate is lowered on every way to a run in the pool"""
    n = 0
    for b in p.bodies.values():
        if not b.pretty.startswith("pool::") or not outside_tests(b):
            continue
        b.parse()
        runs = [k for k, t in calls_of(b) if re.search(r"ExecutionContext::(exec|reset)$", mir.strip_generics(t[2]))]
        if not runs:
            continue
        lowered = {k for k, t in calls_of(b) if re.search(r"Atomic(Bool|::<bool>)?::(store|swap)$", mir.strip_generics(t[2])) and len(t[3]) > 1 and "false" in str(t[3][1])}
        seen, todo = set(), [min(b.blocks)]
        while todo:
            k = todo.pop()
            if k in seen or k not in b.blocks:
                continue
            seen.add(k)
            if k not in lowered:
                todo += successors(b.blocks[k][1][0])
        for k in runs:
            n += 1
            ctx.require(k not in seen, "memory-flag-lowered", b.pretty, "a pooled request can start while the isolate's out-of-memory flag of an earlier request is still set", f"{b.pretty}:{b.block(k)[1][-1][1]}")
    return n


@check("P24", "path enumeration over MIR of the reset (every field of the per-request state must be emptied on every successful path) and symbolic interpretation of the reset script from an arbitrary state",
       "globals that the worker itself creates are the worker's business; state that handlers registered at load time is kept by design; P17 decides that a reused context is reset successfully first")
def p24(ctx):
    """The per-request state is read off the type: every collection, option, flag and inbox among the fields of RequestContext (and of the crate's structs it holds).  On every path on which the reset
    returns Ok, each of them has been emptied, lowered or drained, with nothing put back after; a pending termination is lifted before the reset's script runs, and the script ran to its end.  The script
    side is read off the embedded scripts: every internal global that functions change while a request is served.  The reset's script is interpreted with arbitrary old values in all of them and leaves
    each at the value with which a fresh context starts (or empty), with the pending timers cancelled in the event loop.  In the pool the out-of-memory flag is lowered on every way to a run."""
    R = Reset(ctx)
    R.check()
    js_side(ctx, R.text)
    n = 0
    for feats in FEATURES:
        n += memory_flag(ctx, ctx.prog("full", feats))
    ctx.floor("pooled runs", n, 3)
