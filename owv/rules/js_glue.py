"""P25: the scripts that hand an event to the handlers of the worker."""
import itertools

from .. import js
from ..check import check, Missing

DONE, RESPONSE, RESULT = "__requestComplete", "__lastResponse", "__taskResult"
KINDS = ("fetch", "scheduled", "task")
HOSTILE = ("arg", "thrown")
GIVEN, RETURNED, ANSWER, RESULTV, EVENT, DEFAULT = (("arg", x) for x in ("responded", "returned", "answer", "result", "event", "default"))


def tenant(name):
    return ("obj", "Promise", ("tenant", name))


HPROM, RPROM, WORK, WORK2 = tenant("handler"), tenant("response"), tenant("work"), tenant("more work")
WORKS = (WORK, WORK2)


def handler(style, kind):
    return ("arg", f"{style} {kind} handler")


class Run:
    """one way to dispatch an event, for every behaviour of the handler"""
    max_join = None
    max_push = 2

    def __init__(self, ctx, w, resp, stream, kind, what, handlers):
        self.ctx, self.w, self.resp, self.stream, self.kind, self.what, self.handlers = ctx, w, resp, stream, kind, what, handlers
        self.logs = set(logging(w).values())
        self.given, self.returned = ("typed", GIVEN, resp), ("typed", RETURNED, resp)

    def req(self, c, rule, msg, node, e):
        self.ctx.require(c, rule, self.what, f"{self.what}: {msg}", e.p.line(node["id"]) if node else None)

    def add(self, st, *x):
        if x not in st.data:
            st.data = tuple(sorted(st.data + (x,), key=repr))

    def drop(self, st, k):
        st.data = tuple(x for x in st.data if x[0] != k)

    def has(self, st, *kinds):
        return any(x[0] in kinds for x in st.data)

    # ---- what the engine asks
    def keep_fact(self, f):
        return True

    def survives(self, e, st, b, f, v):
        if b == st.heap.get((js.G, RESULT)) and b[0] == "obj":
            return True         # only the glue can reach the result
        return b == js.G and (f in (DONE, RESPONSE, RESULT) or v[0] == "fn") or b[0] == "arg" or b[0] == "obj" and b[1] == "Promise"

    def nullable(self, e, st, v):
        return v[0] in ("res", "rej")

    def hostile(self, e, st, v):
        return v in (HOSTILE, RESULTV, ANSWER)

    def throws(self, e, st, callee, args):
        return False if callee in ("Promise.all", "Promise.allSettled") else None

    def bumps(self, e, st, callee, args):
        return False if callee in ("Promise.all", "Promise.allSettled") else None

    def construct(self, e, st, f, args, n, out):
        if f == self.resp:
            t = ("typed", ("new", "Response", tuple(args), n["id"]), f)
            s = e.read_prop(st, args[1], "status") if len(args) > 1 and args[1][0] == "obj" else None
            if s is not None and s[0] == "c" and isinstance(s[1], (int, float)) and s[1] >= 500:
                self.add(st, "error", t)
            return [(st, t)]
        return None

    def settles(self, e, st, v, n, out):
        if v in (self.given, self.returned, RESULTV, ANSWER):
            return [(st, True, v)]
        if v == HPROM:
            return self.finish(e, st, n, out)
        if v == RPROM:
            f = st.fork()
            how = next((x[1] for x in st.data if x[0] == "rprom"), None)
            r = []
            if how != "rejects":
                r.append((st, True, self.given))
            if how != "fulfils":
                self.add(f, "bad")
                r += [(f, False, HOSTILE)]
            return r
        if v in WORKS:
            return self.worked(st, [v])
        if v[0] == "call" and v[1] in ("Promise.all", "Promise.allSettled") and v[2]:
            items = e.elems(st, v[2][0])
            mine = [x for x in WORKS if items is not None and x in items]
            if mine:
                return self.worked(st, mine)
            return [(st, True, ("call", "all", (), n["id"]))]
        return None

    def worked(self, st, which):
        f = st.fork()
        for x in which:
            self.add(st, "workdone", x)
        self.add(f, "workfailed")
        return [(st, True, js.UNDEF), (f, False, HOSTILE)]

    def call(self, e, st, f, this, args, n, out):
        if f in self.handlers:
            return self.handle(e, st, f, args, n, out)
        if f in self.logs:
            return [(st, js.UNDEF)]
        if f[0] == "fn" and f[1] in self.stream:
            a = args[0] if args else js.UNDEF
            bad = st.fork()
            self.add(bad, "streamfail")
            r = [(bad, ("prom", "err", ("new", "TypeError", (), (n["id"],))))]
            return r if a in (js.UNDEF, js.NULL) else r + [(st, ("prom", "ok", a))]
        if f == ("global", "String") and args and self.hostile(e, st, args[0]):
            e.hostile(st, args[0], n, out)
            return [(st, ("call", "String", (args[0],), "any"))]
        return None

    # ---- the handler of the worker
    def fnof(self, e, st, args, name):
        for a in args:
            f = st.heap.get((a, name))
            if f is not None and f[0] in ("fn", "bound"):
                return f, a
        return None, None

    def handle(self, e, st, f, args, n, out):
        self.add(st, "called", f)
        if len([x for x in st.data if x[0] == "called"]) > 1 or self.has(st, "again"):
            self.req(False, "handler-called-once", "two handlers get the event", n, e)
        self.add(st, "again")
        e.event(st, "handler", n, f, args)
        self.arguments(e, st, args, n)
        sts = [st]
        wait, obj = self.fnof(e, st, args, "waitUntil")
        if wait:
            last = [st.fork()]
            for x in WORKS:
                o, nxt = [], []
                for s2 in last:
                    for s3, _ in e.call(s2, wait, obj, [x], n, o):
                        self.add(s3, "work", x)
                        nxt.append(s3)
                self.req(not o, "wait-until-accepts", "waitUntil of a promise throws", n, e)
                sts += [s.fork() for s in nxt]
                last = nxt
        res = []
        for s in sts:
            for s2 in self.respond(e, s, args, n, out, False):
                res += self.leave(e, s2, args, n, out)
        return res

    def arguments(self, e, st, args, n):
        """the handler gets this very event and, in module style, the environment and a context"""
        a = args[0] if args else js.UNDEF
        it = ("arg", "request")
        if self.kind == "fetch" and self.style != "module":
            a = e.read_prop(st, a, "request") if a[0] == "obj" else js.UNDEF
        self.req(a == it if self.kind == "fetch" else a == EVENT or a[0] == "obj" and (a, "$open") in st.heap, "handler-gets-event", f"the handler is given {js.show(a)} instead of the "
                 + ("request" if self.kind == "fetch" else "event"), n, e)
        wait, _ = self.fnof(e, st, args[2:3] if self.style == "module" else args[:1], "waitUntil")
        self.req(wait is not None, "handler-can-wait", "the handler has no way to extend the event (waitUntil)", n, e)
        if self.kind == "fetch" and self.style != "module":
            self.req(self.fnof(e, st, args[:1], "respondWith")[0] is not None, "handler-can-respond", "the event has no respondWith", n, e)
        if self.style == "module":
            self.req(len(args) > 1 and args[1] == e.read_prop(st, js.G, "env"), "handler-gets-env", "the handler is not given the environment", n, e)

    def respond(self, e, st, args, n, out, late):
        f, obj = self.fnof(e, st, args, "respondWith")
        sts = [] if late else [st]
        if not f:
            return sts
        for a in (self.given, ("rprom", "fulfils"), ("rprom", "rejects"), js.UNDEF, js.NULL) if self.kind == "fetch" else (ANSWER,):
            s = st.fork()
            v = a
            self.add(s, "gave")
            if late:
                self.add(s, "late")
            if a[0] == "rprom":
                self.add(s, *a)
                v = RPROM
            if a in (js.UNDEF, js.NULL):
                self.add(s, "bad")
            o = []
            for s2, _ in e.call(s, f, obj, [v], n, o):
                sts.append(s2)
            for k, v, s2 in o:
                self.add(s2, "threw")
                out.append((k, v, s2))
        return sts

    def leave(self, e, st, args, n, out):
        for t in (js.NULL, HOSTILE):
            s = st.fork()
            self.add(s, "threw")
            out.append(("throw", t, s))
        val = self.returned if self.kind == "fetch" else RESULTV
        res = []
        for v in (js.UNDEF, val):
            s = st.fork()
            if v != js.UNDEF:
                self.add(s, "ret")
            res.append((s, v))
        st.heap[(HPROM, "$args")] = tuple(args)
        self.add(st, "hprom")
        return res + [(st, HPROM)]

    def finish(self, e, st, n, out):
        """the promise that the handler returned settles"""
        if self.has(st, "hsettled"):
            how = next(x for x in st.data if x[0] == "hsettled")
            return [(st, how[1], how[2])]
        args = st.heap.get((HPROM, "$args"), ())
        sts = [st]
        if not self.has(st, "gave"):
            o = []
            sts += self.respond(e, st, args, n, o, True)
            for k, v, s in o:
                self.add(s, "hsettled", False, v)
                sts.append(s)
        res = []
        for s in sts:
            if self.has(s, "hsettled"):
                res.append((s, False, next(x for x in s.data if x[0] == "hsettled")[2]))
                continue
            for ok, v in ((True, js.UNDEF), (True, self.returned if self.kind == "fetch" else RESULTV), (False, js.NULL), (False, HOSTILE)):
                s2 = s.fork()
                self.add(s2, "hsettled", ok, v)
                self.add(s2, *(("ret",) if v not in (js.UNDEF,) else ("none",)) if ok else ("threw",))
                res.append((s2, ok, v))
        return res

    # ---- what the glue does
    def event(self, e, st, kind, node, *a):
        if kind == "set" and a[0] == js.G:
            if a[1] == RESPONSE:
                if self.reaction(e):
                    self.add(st, "pending")
            elif a[1] == DONE:
                self.complete(e, st, a[2], node)
        elif kind == "looked" and a[0] in (RESULTV, ANSWER):
            self.add(st, "looked")
        elif kind == "resume":
            self.drop(st, "pending")

    def reaction(self, e):
        for nid, _ in e.callpath:
            c = e.p.nodes[nid]
            if c["type"] == "CallExpression" and c["callee"]["type"] == "MemberExpression" and c["callee"]["property"].get("name") in ("then", "catch", "finally"):
                return True
        return False

    def complete(self, e, st, v, node):
        self.req(v == js.TRUE, "completion-kept", "the run is marked as not complete", node, e)
        failed = self.has(st, "threw", "bad", "streamfail", "looked")
        self.req(self.kind == "fetch" and self.has(st, "gave") or not self.has(st, "hprom") or self.has(st, "hsettled"), "complete-after-handler",
                 "the run is marked complete before the promise of the handler settled", node, e)
        if self.kind == "fetch":
            self.req(failed or self.has(st, "late") or not self.has(st, "pending"), "complete-after-response",
                     "the run is marked complete without waiting for the response", node, e)
        self.req(failed or self.has(st, "workfailed") or all(("workdone", x[1]) in st.data for x in st.data if x[0] == "work"), "complete-after-work",
                 "the run is marked complete without waiting for what was given to waitUntil", node, e)

    # ---- at the end
    def end(self, e, kind, v, st, fn):
        node = e.p.nodes[fn[1]]
        if kind == "throw" and not node.get("async"):
            self.req(self.has(st, "threw"), "dispatch-throws", "dispatching the event throws", node, e)
            return
        g = lambda x: st.heap.get((js.G, x), js.UNDEF)
        what = self.tell(st)
        self.req(g(DONE) == js.TRUE, "completed", f"the run is never marked complete when {what}", node, e)
        if self.handlers:
            self.req(self.has(st, "called"), "handler-called", "the handler of the worker is not called", node, e)
        (self.fetch_end if self.kind == "fetch" else self.task_end)(e, st, g, node, what)

    def tell(self, st):
        d = {x[0] for x in st.data}
        r = []
        if not self.handlers:
            return "the worker has no handler"
        if "gave" in d:
            r.append("respondWith gets " + ("something that rejects or is no response" if "bad" in d else "a response") + (" late" if "late" in d else ""))
        if "threw" in d:
            r.append("the handler's promise rejects" if "hprom" in d else "the handler throws")
        elif "ret" in d:
            r.append("the handler returns a value" + (" by a promise" if "hprom" in d else ""))
        else:
            r.append("the handler returns nothing" + (" by a promise" if "hprom" in d else ""))
        if "streamfail" in d:
            r.append("the body cannot be streamed")
        if "workfailed" in d:
            r.append("a waitUntil promise rejects")
        return " and ".join(r)

    def fetch_end(self, e, st, g, node, what):
        r = g(RESPONSE)
        error = ("error", r) in st.data
        es = self.style == "module"
        gave, threw, bad, ret, sf = (self.has(st, x) for x in ("gave", "threw", "bad", "ret", "streamfail"))
        if not self.handlers:
            self.req(error, "missing-handler-answered", f"no error response is recorded when {what}", node, e)
        elif threw and not gave or bad and not threw or es and not ret and not threw:
            self.req(error or bad and ret and self.has(st, "late") and r == self.returned, "failure-answered", f"no error response is recorded when {what}", node, e)
        elif gave or ret:
            want = {self.given} if gave and not bad else set()
            if ret and (not gave or self.has(st, "late")):
                want.add(self.returned)
            self.req(r in want or (sf or threw) and error, "response-recorded", f"the response is not the one that was given when {what}", node, e)
            if not sf and not threw and not bad:
                self.req(r in want, "response-kept", f"the response that was given is replaced when {what}", node, e)

    def task_end(self, e, st, g, node, what):
        r = g(RESULT)
        f = lambda k: e.read_prop(st, r, k)
        isobj = r[0] == "obj"
        threw, gave, ret, wf = (self.has(st, x) for x in ("threw", "gave", "ret", "workfailed"))
        fail = isobj and f("success") == js.FALSE and f("error") not in (js.UNDEF, js.NULL)
        if not self.handlers:
            self.req(fail, "missing-handler-answered", f"no failed result is recorded when {what}", node, e)
        elif threw:
            self.req(fail, "failure-answered", f"no failed result is recorded when {what}", node, e)
        elif wf or fail and self.has(st, "looked"):
            pass
        elif self.kind == "task" and (gave or ret):
            ok = isobj and any(self.carries(e, st, r, x) for x, y in ((ANSWER, gave), (RESULTV, ret)) if y)
            self.req(ok, "result-recorded", f"the result is not the one that was given when {what}", node, e)
        else:
            ok = r == js.UNDEF or isobj and e.truth(st, f("success")) is True
            self.req(ok, "success-recorded", f"no success is recorded when {what}", node, e)

    def walk(self, t):
        if isinstance(t, tuple):
            yield None, t
            for x in t:
                yield from self.walk(x)

    def carries(self, e, st, r, v):
        d, s = e.read_prop(st, r, "data"), e.read_prop(st, r, "success")
        is_ = lambda t, k: t[0] == "fld" and t[1] == v and t[2] == k
        if d == v:
            return e.truth(st, s) is True
        if not is_(d, "data"):
            return False
        own = next((x for k, x in self.walk(s) if is_(x, "success")), None)
        for b, want in ((js.FALSE, False), (js.TRUE, True), (js.UNDEF, True)):
            s2 = st.fork()
            if own is None or e.truth(s2, ("op", "===", own, b)) is False:
                continue
            s2 = e.assume(s2, ("op", "===", own, b), True)
            if s2 is not None and e.truth(s2, s) is (not want):
                return False
        er = e.read_prop(st, r, "error")
        return js.mentions(s, lambda t: isinstance(t, tuple) and len(t) == 4 and is_(t, "success")) and is_(er, "error")


def scripts(w):
    """(scripts up to the one that defines addEventListener, the later scripts)"""
    all_ = [s for s in w.p.ordered() if s.fn != "setup_env"]
    reads = lambda s: any(n["type"] == "MemberExpression" and not n["computed"] and n["object"].get("name") == "globalThis" and n["property"].get("name") == "default"
                          for i, n in enumerate(w.p.nodes) if w.p.where[i] is s)
    late = [s for s in all_ if reads(s)]
    if not late:
        raise Missing("role:glue", "no script looks at the worker's default export")
    return [s for s in all_ if s not in late], late


def stream_fns(w):
    """the functions that start to stream a response body"""
    out = set()
    for n in w.fnodes():
        body = n["body"]

        def go(x, top=True):
            if isinstance(x, list):
                return any(go(y, False) for y in x)
            if not isinstance(x, dict):
                return False
            if not top and x.get("type") in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression"):
                return False
            if x.get("type") == "CallExpression" and x["callee"].get("name") == "__responseStreamCreate":
                return True
            return any(go(y, False) for k, y in x.items() if isinstance(y, (dict, list)) and k != "loc")
        if go(body):
            out.add(n["id"])
    return out


def top(e, st, scs):
    """all ways in which the top level of the scripts ends"""
    sts = [st]
    for s in scs:
        nxt = []
        for x in sts:
            for c in e.block_body(s.ast["body"], x, js.TOP, hoist_global=True):
                if c[0] != "n":
                    raise Missing("glue:top", f"{s.file}: the script can fail: {js.show(c[1])}")
                nxt.append(c[2])
        sts = nxt
    return sts


@check("P25", "all-paths symbolic interpretation of the embedded event glue against a model of every handler behaviour",
       "The worker is assumed to leave the internal globals (names with two underscores), console and Response alone. A fetch handler that ends without ever giving a response is only required to "
       "complete. Promise reactions are taken at registration; that the run does not complete before the response is checked by a separate rule.")
def p25(ctx):
    """Every configuration of a worker (which listeners it registered with addEventListener, which handlers its default export has, or no default object at all) is taken through the setup scripts; in
    each, a function for fetch events and one for tasks must exist. Each of these functions is then followed on all paths for every behaviour of the handler: it throws or rejects with null or with an
    object whose properties and string form throw, returns nothing, a value or a promise of either, calls respondWith with a response, a promise that fulfils or rejects, or something invalid, at once or
    after a wait, and hands promises that fulfil or reject to waitUntil. On every path the handler is called exactly once, the run is marked complete after the handler's promise, the response and the
    waitUntil work are through, the response or result that was given is the one recorded, and a failure (also of a missing handler) leaves an error response or a failed result."""
    w = js.world(ctx)
    prog = w.p
    resp = w.cls("Response")
    if resp is None:
        raise Missing("role:Response", "no class Response")
    stream = stream_fns(w)
    if not stream:
        raise Missing("role:stream", "no function starts to stream a response body")
    early, late = scripts(w)
    base = js.Engine(prog)
    base.setup(early)
    add = base.base.heap.get((js.G, "addEventListener"))
    if not add or add[0] != "fn":
        raise Missing("role:addEventListener", "no global function addEventListener")
    seen, configs = set(), 0
    shapes = [None, ("c", 42), js.NULL] + [s for i in range(4) for s in itertools.combinations(KINDS, i)]
    for listeners in [s for i in range(4) for s in itertools.combinations(KINDS, i)]:
        for shape in shapes:
            configs += 1
            setup(ctx, w, base, add, late, resp, stream, listeners, shape, seen)
    ctx.counts["worker configurations"] = configs
    ctx.counts["dispatch functions"] = len(seen)
    console(ctx, w)
    ctx.floor("dispatch functions", len(seen), 6)


def setup(ctx, w, base, add, late, resp, stream, listeners, shape, seen):
    rule = Run(ctx, w, resp, stream, "fetch", "setup", ())
    e = w.engine_for(rule)
    e.parent = dict(base.parent)
    e.base = base.base
    st = base.base.fork()
    for g in sorted(e.written_globals()):
        if g.startswith("__"):
            st.heap.setdefault((js.G, g), js.UNDEF)
    for k in KINDS:
        for h in (handler("listener", k), handler("module", k)):
            st = e.assume(st, ("op", "===", ("typeof", h), ("c", "function")), True)
    for k in listeners:
        o = []
        r = e.call(st, add, js.UNDEF, [("c", k), handler("listener", k)], {"id": add[1], "type": "CallExpression", "callee": {"type": "Identifier"}}, o)
        if o or len(r) != 1:
            raise Missing("glue:listen", f"addEventListener('{k}') does not have one outcome")
        st = r[0][0]
    if shape is None:
        st.heap[(js.G, "default")] = js.UNDEF
    elif isinstance(shape, tuple) and shape[:1] in (("c",), ("null",)):
        st.heap[(js.G, "default")] = shape
    else:
        st.heap[(js.G, "default")] = DEFAULT
        st = e.assume(st, ("op", "===", ("typeof", DEFAULT), ("c", "object")), True)
        st = e.assume(st, ("nullish", DEFAULT), False)
        st = e.assume(st, ("op", "===", DEFAULT, js.NULL), False)
        for k in KINDS:
            st.heap[(DEFAULT, k)] = handler("module", k) if k in shape else js.UNDEF
    has = lambda k: ("module" if isinstance(shape, tuple) and k in shape else "listener" if k in listeners else None)
    name = f"listeners {'+'.join(listeners) or 'none'}, default export {'{' + ','.join(shape) + '}' if isinstance(shape, tuple) and shape[:1] not in (('c',), ('null',)) else 'not an object'}"
    for s in top(e, st, late):
        e.bump(s, {"id": -1})
        for x, v in ((DONE, js.FALSE), (RESPONSE, js.UNDEF), (RESULT, js.UNDEF)):
            s.heap[(js.G, x)] = v
        fetch = s.heap.get((js.G, "__triggerFetch"))
        ctx.require(fetch is not None and fetch[0] == "fn", "fetch-dispatch-exists", "fetch", f"with {name}, no function handles fetch events")
        task = s.heap.get((js.G, "__taskHandler"))
        if task is None or task[0] != "fn":
            task = s.heap.get((js.G, "__scheduledHandler"))
        ctx.require(task is not None and task[0] == "fn", "task-dispatch-exists", "task", f"with {name}, no function handles tasks: they never complete")
        kind = "task" if has("task") else "scheduled"
        for kind, fn in (("fetch", fetch), (kind, task)):
            if fn is None or fn[0] != "fn":
                continue
            # which handler the event must reach; the dispatching functions are the same for all configurations that agree on it
            who = handler(has(kind), kind) if has(kind) else None
            k = (kind, fn[1], who)
            if k in seen:
                continue
            seen.add(k)
            dispatch(ctx, w, e, s, resp, stream, kind, fn, who, has(kind))


def dispatch(ctx, w, base, st, resp, stream, kind, fn, who, style):
    what = f"{kind} event, {style + ' style' if style else 'no handler'}"
    rule = Run(ctx, w, resp, stream, kind, what, (who,) if who else ())
    rule.style = style
    e = w.engine_for(rule)
    e.parent, e.base = dict(base.parent), base.base
    st = st.fork()
    for p in (HPROM, RPROM, WORK):
        st.heap[(p, "then")] = ("global", "Promise.prototype.then")
    for r in (rule.given, rule.returned):
        st.heap[(r, "then")] = js.UNDEF
    for v in (RESULTV, ANSWER):
        st = e.assume(e.assume(st, ("op", "===", v, js.UNDEF), False), ("op", "===", v, js.NULL), False)
    ctx.functions.add(f"{e.p.line(fn[1])} {what}")
    ex = js.explore(ctx, e, fn, what, args=[("arg", "request") if kind == "fetch" else EVENT], st=st)
    for k, v, s in ex:
        rule.end(e, k, v, s, fn)
    ctx.counts[f"paths of {what}"] = len(ex)
    ctx.sample(f"{what}: {len(ex)} paths, e.g. {rule.tell(ex[0][2]) if ex else ''}")


class Console:
    max_join = 64

    def hostile(self, e, st, v):
        return v == HOSTILE or v[0] == "elem"

    def call(self, e, st, f, this, args, n, out):
        if f == ("global", "String") and args:
            e.hostile(st, args[0], n, out)
            return [(st, ("call", "String", (args[0],), "any"))]
        return None

    def throws(self, e, st, callee, args):
        return False if isinstance(callee, str) and callee.startswith("__") else None


def logging(w):
    c = w.globals("console")
    return {k[1]: v for k, v in w.base.heap.items() if k[0] == c and v[0] == "fn"} if c else {}


def console(ctx, w):
    """error handlers log first: logging must not throw for any value"""
    fns = logging(w)
    ctx.floor("console functions", len(fns), 5)
    for name, fn in sorted(fns.items()):
        e = w.engine_for(Console())
        for k, v, s in js.explore(ctx, e, fn, f"console.{name}", args=[("c", "text"), HOSTILE]):
            ctx.require(k == "return", "logging-never-throws", name, f"console.{name} throws for a value without a string form: the error handlers of the event glue log before they record the error",
                        e.p.line(fn[1]))
