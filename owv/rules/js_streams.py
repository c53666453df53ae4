"""P38: the ReadableStream state machine in the embedded stream script."""
from .. import js
from ..check import check, Missing

READABLE, CLOSED, ERRORED = ("c", "readable"), ("c", "closed"), ("c", "errored")


class Roles:
    """the classes and fields by what they are used for, not by their names"""

    def __init__(self, w):
        self.S = w.cls("ReadableStream")
        self.C = w.cls("ReadableStreamDefaultController")
        self.R = w.cls("ReadableStreamDefaultReader")
        for n, c in (("ReadableStream", self.S), ("ReadableStreamDefaultController", self.C), ("ReadableStreamDefaultReader", self.R)):
            if c is None:
                raise Missing(f"class:{n}", f"class {n} is not installed by the setup scripts")
        ini = {c: self.initial(w, c) for c in (self.S, self.C, self.R)}

        def one(c, what, f):
            r = [k for k, vs in ini[c].items() if any(f(k, v) for v in vs)]
            if len(r) != 1:
                raise Missing(f"role:{what}", f"cannot identify the field that holds the {what}: {r}")
            return r[0]
        self.state = one(self.S, "stream state", lambda k, v: v == READABLE)
        self.queue = one(self.C, "chunk queue", lambda k, v: v[0] == "obj" and v[1] == "Array")
        self.stream_c = one(self.C, "controller's stream", lambda k, v: v == ("arg", "$stream"))
        self.controller = one(self.S, "stream's controller", lambda k, v: v[0] == "obj" and v[1] == self.C)
        self.requests = one(self.R, "pending reads", lambda k, v: v[0] == "obj" and v[1] == "Array")
        self.stream_r = one(self.R, "reader's stream", lambda k, v: v == ("arg", "$stream"))
        self.requested = one(self.C, "close-requested flag", lambda k, v: v == js.FALSE)
        self.source = one(self.S, "underlying source", lambda k, v: v == ("arg", "$stream"))
        g = w.methods(self.S).get("get locked")
        if not g:
            raise Missing("get locked", "ReadableStream has no locked accessor")
        e = w.engine_for(None)
        rs = [v for k, v, s in e.run(g, ("this", self.S))]
        fs = set()
        for v in rs:
            js.mentions(v, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[1] == ("this", self.S) and bool(fs.add(t[2])))
        if len(fs) != 1:
            raise Missing("role:reader", f"cannot identify the field that holds the reader: {sorted(fs)}")
        self.reader = fs.pop()

    def initial(self, w, c):
        ctor = w.methods(c).get("constructor")
        if not ctor:
            raise Missing("constructor", "class without a constructor")
        o, best = ("obj", c, ("new",)), {}

        class Init:
            def event(self, e, st, kind, node, *a):
                if kind == "set" and a[0] == o and isinstance(a[1], str):
                    best.setdefault(a[1], []).append(a[2])
        n = len(w.p.nodes[ctor[1]]["params"])
        w.engine_for(Init()).run(ctor, o, [("arg", "$stream")] * n)
        return best


class Rule:
    def __init__(self, ctx, ro, eng=None, root="", judge=True):
        self.ctx, self.ro, self.root, self.judge = ctx, ro, root, judge
        self.names = ctx._p38names

    def bumps(self, e, st, callee, args):
        # natives of the runtime run no script code
        return False if isinstance(callee, str) and callee.startswith("__") else None

    def throws(self, e, st, callee, args):
        return False if isinstance(callee, str) and callee.startswith("__") else None

    def survives(self, e, st, b, prop, v):
        """what the rule itself establishes for all code: an ended stream stays ended, and nothing enters its emptied queue"""
        ro = self.ro
        if prop == ro.state and e.type_of(b) == ro.S:
            return v in (CLOSED, ERRORED)
        if prop == ro.queue and e.type_of(b) == ro.C or prop in ("$items", "length") and self.is_coll(e, st, b, ro.C, ro.queue):
            k = b if prop == ro.queue else b[1] if b[0] == "fld" else next((kk[0] for kk, v2 in st.heap.items() if v2 == b and kk[1] == ro.queue), None)
            if k is None:
                return False
            q = v if prop == ro.queue else b
            s = e.read_prop(st, k, ro.stream_c)
            return self.not_readable(e, st, s) and self.empty(e, st, q)
        return False

    def req(self, c, rule, msg, node, e):
        if self.judge:
            self.ctx.require(c, rule, self.root, f"{self.root}: {msg}", e.p.line(node["id"]))

    def nullable(self, e, st, v):
        return False if v[0] == "elem" else None     # the lists hold what the rule saw being pushed

    # -- field access helpers
    def is_field(self, e, t, cls, f):
        return t[0] == "fld" and t[2] == f and e.type_of(t[1]) == cls

    def is_coll(self, e, st, b, cls, f):
        """b is the collection in field f of some object of cls"""
        if self.is_field(e, b, cls, f):
            return True
        return any(v == b and k[1] == f and e.type_of(k[0]) == cls for k, v in st.heap.items() if v[:1] == ("obj",) and v[1] == "Array")

    def state_of(self, e, st, s):
        return e.read_prop(st, s, self.ro.state)

    def not_readable(self, e, st, s):
        v = self.state_of(e, st, s)
        return e.truth(st, ("op", "===", v, READABLE)) is False

    def readable(self, e, st, s):
        v = self.state_of(e, st, s)
        return e.truth(st, ("op", "===", v, READABLE)) is True or (e.truth(st, ("op", "===", v, CLOSED)) is False and e.truth(st, ("op", "===", v, ERRORED)) is False)

    def empty(self, e, st, coll):
        n = e.read_prop(st, coll, "length")
        return e.truth(st, n) is False

    def add(self, st, what):
        st.data = tuple(x for x in st.data if x != what) + (what,)

    def drop(self, st, pred):
        st.data = tuple(x for x in st.data if not pred(x))

    def close_item(self, e, st, item):
        """is this queue item the close marker: True/False/None"""
        for k, v in ((k, v) for k, v in self.ctx._p38mark.items()):
            t = e.read_prop(st, item, k)
            r = e.truth(st, ("op", "===", t, v))
            if r is not None:
                return r
        return None

    def event(self, e, st, kind, node, *a):
        ro = self.ro
        if kind == "set":
            b, f, v = a
            c = e.type_of(b)
            if c == ro.S and f == ro.state and not self.in_ctor(e, b):
                cur = e.truth(st, ("op", "===", self.state_of(e, st, b), v))
                marker = any(x[0] == "item" and self.close_item(e, st, x[1]) for x in st.data)
                err = e.truth(st, ("op", "===", self.state_of(e, st, b), ERRORED))
                ok = v in (CLOSED, ERRORED) and (cur is True or self.readable(e, st, b) or v == CLOSED and marker and (err is False or self.drained_by_close(st)))
                self.req(ok, "state-only-leaves-readable", f"the stream state is set to {js.show(v)} although it may already be closed or errored", node, e)
                self.drop(st, lambda x: x[0] == "left")
                self.add(st, ("left", b))
                if v == CLOSED and marker:
                    self.drop(st, lambda x: x[0] == "item" and self.close_item(e, st, x[1]))
                elif v == CLOSED:
                    self.add(st, ("discard", b))
                elif v == ERRORED:
                    self.add(st, ("discard", b))
            elif c == ro.C and f == ro.requested and not self.in_ctor(e, b):
                self.req(v == js.TRUE, "close-request-stays", "the close request is taken back", node, e)
            elif c == ro.C and f == ro.queue and not self.in_ctor(e, b):
                s = e.read_prop(st, b, ro.stream_c)
                s2 = [x[1] for x in st.data if x[0] == "left"]
                self.req(self.not_readable(e, st, s) or bool(s2), "queue-not-discarded", "the queue is replaced while the stream may still be readable", node, e)
                self.drop(st, lambda x: x[0] == "discard")
            elif c == ro.S and v[:1] == ("arg",) and isinstance(f, str) and not self.in_ctor(e, b):
                self.add(st, ("kept", f))
            elif c == ro.R and f == ro.requests and not self.in_ctor(e, b):
                old = e.read_prop(st, b, f)
                if not self.empty(e, st, old):
                    self.add(st, ("swap", old))
            elif c == ro.S and f == ro.reader and not self.in_ctor(e, b):
                cur = e.read_prop(st, b, ro.reader)
                if v in (js.NULL, js.UNDEF):
                    self.add(st, ("unlocked", b))
                    if e.truth(st, cur) is not False:
                        self.req(self.empty(e, st, e.read_prop(st, cur, ro.requests)) or self.empty_of_this(e, st, cur), "lock-released-with-reads-pending",
                                 "the reader is detached although reads may still be pending: they would never settle", node, e)
                else:
                    self.req(cur == v or e.truth(st, cur) is False, "one-reader", "a reader takes the lock although another one may hold it", node, e)
                    if v[0] == "obj" and v[1] == ro.R or e.type_of(v) == ro.R:
                        self.add(st, ("locked", v))
            elif c == ro.R and f == ro.stream_r and self.in_ctor(e, b) and v not in (js.NULL, js.UNDEF):
                self.add(st, ("reads", b, v))
        elif kind == "mcall":
            b, k, args = a
            if k in ("push", "unshift") and self.is_coll(e, st, b, ro.C, ro.queue):
                self.req(k == "push", "order", "a chunk is put in front of earlier ones", node, e)
                c = b[1] if b[0] == "fld" else next(kk[0] for kk, v in st.heap.items() if v == b and kk[1] == ro.queue)
                s = e.read_prop(st, c, ro.stream_c)
                item = args[0] if args else js.UNDEF
                mark = item[0] == "obj" and any(st.heap.get((item, k2)) == v2 for k2, v2 in self.ctx._p38mark.items())
                flag = e.read_prop(st, c, ro.requested)
                if mark:
                    self.req(self.readable(e, st, s), "close-only-readable", "the stream is closed although it may not be readable", node, e)
                    self.add(st, ("closing", c))
                else:
                    self.req(self.readable(e, st, s), "enqueue-only-readable", "a chunk is accepted although the stream may be closed or errored", node, e)
                    self.req(e.truth(st, flag) is False, "enqueue-after-close", "a chunk is accepted although close may have been requested", node, e)
                    vals = [v for (o, kk), v in st.heap.items() if o == item]
                    self.req(any(v[:1] == ("arg",) for v in vals) or self.root.startswith("!"), "chunk-unaltered", "the queued item does not carry the caller's chunk", node, e)
                self.add(st, ("queued", c))
            elif k == "push" and self.is_coll(e, st, b, ro.R, ro.requests):
                r = b[1] if b[0] == "fld" else next(kk[0] for kk, v in st.heap.items() if v == b and kk[1] == ro.requests)
                s = e.read_prop(st, r, ro.stream_r)
                c = e.read_prop(st, s, ro.controller)
                q = e.read_prop(st, c, ro.queue)
                self.req(self.readable(e, st, s), "pending-only-readable", "a read is parked although the stream may be closed or errored: nothing would settle it", node, e)
                self.req(self.empty(e, st, q), "pending-only-empty", "a read is parked although a chunk may be queued", node, e)
                item = args[0] if args else js.UNDEF
                rs = {kk: v for (o, kk), v in st.heap.items() if o == item and v[:1] == ("resolver",)}
                for kk, v in rs.items():
                    self.names[kk] = v[2]
                self.req({v[2] for v in rs.values()} == {"ok", "err"}, "pending-read-shape", "a parked read does not carry both ways of settling it", node, e)
                for v in rs.values():
                    self.add(st, ("parked", v[1]))
            elif k in ("pop", "shift", "splice") and self.is_coll(e, st, b, ro.C, ro.queue) or k in ("pop", "shift") and self.is_coll(e, st, b, ro.R, ro.requests):
                self.req(k != "pop", "order", "the newest element is taken before older ones", node, e)
        elif kind == "var" or kind == "elem":
            v = a[1]
            src = a[0] if kind == "elem" else None
            it = None
            if kind == "elem":
                x = src[2][0] if src[0] == "call" and src[1] in ("splice", "slice") else src
                if self.is_coll(e, st, x, ro.R, ro.requests):
                    it = ("req", v)
            if it:
                self.req(it not in st.data, "pending-read-settled", "a pending read is taken from the list and not settled", node, e)
                self.add(st, it)
        elif kind == "loopend":
            self.drop(st, lambda x: x == ("swap", a[0]))
        elif kind == "settle":
            p, how, v = a
            r = p[1] if p[0] == "fld" else None
            if p[0] == "obj" and p[1] == "Promise" and how == "err" and v[0] in ("thrown", "new") and ("parked", p) in st.data:
                self.add(st, ("dead", p))
        elif kind == "call":
            f, this, args, v = a
            if isinstance(f, tuple) and f[0] == "fld" and f[2] in ("pull", "start") and self.is_source(e, f[1]):
                self.add(st, ("user", f[2], v))
                self.drop(st, lambda x: x[0] == "usererr")
        elif kind == "threw":
            f, args, t = a
            if isinstance(f, tuple) and f[0] == "fld" and f[2] == "pull" and self.is_source(e, f[1]):
                self.drop(st, lambda x: x[0] == "user")
                self.add(st, ("usererr", "pull"))
        elif kind == "observed":
            b, ok, v = a
            self.drop(st, lambda x: x[0] == "user" and js.mentions(b, lambda t: t == x[2]))
        elif kind == "react":
            ok, v = a
            if not ok and js.mentions(v, lambda t: isinstance(t, tuple) and len(t) >= 2 and t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][2] in ("pull", "start")):
                self.add(st, ("usererr", "pull"))
        elif kind == "test":
            q, b = a
            t, pol = e.norm(q)
            if t[0] == "op" and t[1] == "===" and t[3] in (READABLE, CLOSED, ERRORED) and self.is_field(e, t[2], ro.S, ro.state):
                s = t[2][1]
                if self.not_readable(e, st, s):
                    self.drop(st, lambda x: x[0] == "usererr")
        elif kind == "bump":
            for x in st.data:
                if x[0] == "left" and self.settled(e, st, x[1]):
                    self.drop(st, lambda y: y == x)
        if kind == "set" and a[1] == ro.state and a[2] == ERRORED:
            self.drop(st, lambda x: x[0] == "usererr")

    def settled(self, e, st, s):
        """no read is parked on the reader of this stream"""
        ro = self.ro
        r = e.read_prop(st, s, ro.reader)
        if e.truth(st, r) is False or self.empty(e, st, e.read_prop(st, r, ro.requests)):
            return True
        th = ("this", ro.R)
        return s == e.read_prop(st, th, ro.stream_r) and self.empty(e, st, e.read_prop(st, th, ro.requests))

    def drained_by_close(self, st):
        return any(x[0] == "closing" for x in st.data) or any(x[0] == "drain" for x in st.data)

    def empty_of_this(self, e, st, cur):
        th = ("this", self.ro.R)
        return self.empty(e, st, e.read_prop(st, th, self.ro.requests)) and self.root.startswith(e.cname(self.ro.R))

    def is_source(self, e, t):
        return t[0] == "arg" or t[0] == "fld" and t[2] == self.ro.source

    def in_ctor(self, e, b):
        c = e.type_of(b)
        k = self.ctors.get(c)
        for x in reversed(e.callpath):
            if e.p.nodes[x[1]]["type"] != "ArrowFunctionExpression":
                return b[0] == "obj" and x[1] == k
        return False

    def alias(self, e, st, base, prop):
        ro = self.ro
        if base[0] == "fld":
            if prop == ro.controller and base[2] == ro.stream_c and e.type_of(base[1]) == ro.C:
                return base[1]
            if prop == ro.stream_c and base[2] == ro.controller and e.type_of(base[1]) == ro.S:
                return base[1]
            if prop == ro.stream_r and base[2] == ro.reader and e.type_of(base[1]) == ro.S:
                return base[1]
        return None

    # -- calls of the settling functions of a pending read
    def call(self, e, st, f, this, args, n, out):
        if f[0] == "fld" and isinstance(f[2], str) and f[2] in self.names and (f[1][0] in ("call", "elem")):
            req, how, v = f[1], self.names[f[2]], args[0] if args else js.UNDEF
            if req[0] == "call" and req[1] == "shift" or req[0] == "elem":
                if req[0] == "call" and not self.is_coll(e, st, self.strip(req[2][0]), self.ro.R, self.ro.requests):
                    return None
                self.drop(st, lambda x: x == ("req", req))
                self.deliver(e, st, how, v, n)
                return [(st, js.UNDEF)]
        return None

    def strip(self, t):
        return t

    def method(self, e, st, b, k, f, args, n, out):
        ro = self.ro
        if k == "shift" and self.is_coll(e, st, b, ro.C, ro.queue):
            res = []
            h = e.read_prop(st, b, ("c", 0))
            peeked = any(js.mentions(t, lambda x: x == h) for m in (st.vars, st.facts) for kv in m.items() for t in kv)
            for s, v in e.builtin(st, b, k, args, n, out):
                v = h if peeked else v
                self.req(not any(x[0] == "item" for x in s.data), "chunk-delivered", "a chunk is taken from the queue and not delivered", n, e)
                self.add(s, ("item", v))
                res.append((s, v))
            return res
        if k == "shift" and self.is_coll(e, st, b, ro.R, ro.requests):
            res = []
            for s, v in e.builtin(st, b, k, args, n, out):
                self.req(not any(x[0] == "req" for x in s.data), "pending-read-settled", "a pending read is taken from the list and not settled", n, e)
                self.add(s, ("req", v))
                res.append((s, v))
            return res
        return None

    def deliver(self, e, st, how, v, n):
        """a read is answered with v"""
        ro = self.ro
        if how == "err":
            return
        done = e.read_prop(st, v, "done") if v[0] == "obj" else None
        val = e.read_prop(st, v, "value") if v[0] == "obj" else None
        items = [x[1] for x in st.data if x[0] == "item"]
        self.req(done in (js.TRUE, js.FALSE), "read-result", f"a read is answered with {js.show(v)} instead of a result object", n, e)
        if done == js.FALSE:
            it = [i for i in items if val[0] == "fld" and val[1] == i]
            if not it and val[:1] == ("arg",) and self.root.endswith("Controller.enqueue"):
                # handed directly to the longest-waiting read: nothing may be queued before it
                c = ("this", ro.C)
                s = e.read_prop(st, c, ro.stream_c)
                self.req(self.readable(e, st, s), "enqueue-only-readable", "a chunk is accepted although the stream may be closed or errored", n, e)
                self.req(e.truth(st, e.read_prop(st, c, ro.requested)) is False, "enqueue-after-close", "a chunk is accepted although close may have been requested", n, e)
                self.req(self.empty(e, st, e.read_prop(st, c, ro.queue)), "order", "a chunk overtakes queued ones", n, e)
                self.add(st, ("handed", c))
                return
            self.req(bool(it), "chunk-delivered", "a read is answered with something that is not the chunk just taken from the queue", n, e)
            for i in it:
                self.req(self.close_item(e, st, i) is not True, "chunk-delivered", "the end marker is delivered as a chunk", n, e)
                self.drop(st, lambda x: x == ("item", i))
        elif done == js.TRUE:
            left = any(x[0] == "left" for x in st.data) or self.closed_somewhere(e, st)
            mark = any(self.close_item(e, st, i) for i in items)
            self.req(left or mark, "end-only-when-closed", "a read is told the stream has ended although it is not closed", n, e)
            self.drop(st, lambda x: x[0] == "item" and self.close_item(e, st, x[1]))

    def closed_somewhere(self, e, st):
        return any(v is True and f[0] == "op" and f[1] == "===" and f[3] == CLOSED and self.is_field(e, f[2], self.ro.S, self.ro.state) for f, v in st.facts.items())



@check("P38", "static analysis: path-sensitive dataflow over the embedded stream script, with a typestate for the stream and obligations for queued chunks and parked reads",
       "Scripts are single-threaded: between suspension points and calls of unknown code the state is not changed by others; private fields are not written by tenant code.")
def p38(ctx):
    """Every path of every public entry point of the stream classes is walked (helpers are entered, user callbacks may do anything): the state is written only on paths that
    established 'readable' (or took the close marker out of the queue), chunks are queued only while readable and not closing, each chunk taken from the queue reaches exactly
    the read it was taken for, each parked read taken from its list is settled, a path that closes or errors a stream leaves no parked read and no stale queue, the lock is
    taken only when free and given up only without parked reads, and a failing pull errors the stream."""
    w = js.world(ctx)
    ro = Roles(w)
    ctx._p38names = {}
    ctx._p38read, ctx._p38kept = set(), []
    # the close marker: what controller.close() queues
    ctx._p38mark = marker(w, ro)
    roots = []
    for c in (ro.S, ro.C, ro.R):
        ms = w.methods(c)
        for k, f in sorted(ms.items()):
            roots.append((f"{w.engine.cname(c)}.{k}", c, f, not k.startswith("_") and not k.startswith("#")))
    ft = {k: set(v) for k, v in w.engine.ftypes.items()}
    ft[(ro.R, ro.stream_r)] = {ro.S}
    ft[(ro.C, ro.stream_c)] = {ro.S}
    ft[(ro.S, ro.reader)] = {ro.R}
    ft[(ro.S, ro.controller)] = {ro.C}
    n = 0
    entered = set()
    ctors = {c: w.methods(c)["constructor"][1] for c in (ro.S, ro.C, ro.R)}
    for judge in (False, True):
        for name, c, f, public in roots:
            if not public:
                continue
            n += judge
            rule = Rule(ctx, ro, root=name, judge=judge)
            rule.ctors = ctors
            e = w.engine_for(rule)
            e.ftypes = ft
            th = ("this", c)
            args = None
            if name.endswith(".constructor"):
                th = ("obj", c, ("new",))
                if c != ro.S:
                    args = [("typed", "stream", ro.S)] + [("arg", f"a{i}") for i in range(1, len(w.p.nodes[f[1]]["params"]))]
            ex = js.explore(ctx, e, f, name, th, args)
            entered |= e.seen_fns
            if judge:
                finish(ctx, w, ro, rule, e, ex, name, c, f)
    for name, c, f, public in roots:
        if not public and f[1] not in entered:
            ctx.require(False, "helper-reached", name, f"{name} is not reached from any public method and was not analysed", w.p.line(f[1]))
    for k in sorted(ctx._p38read):
        ctx.require(ctx._p38kept and all(k in x for x in ctx._p38kept), "stored-error", k, f"reads of an errored stream fail with the stream's {k}, which error() does not set to the given error", "ReadableStreamDefaultController.error")
    ctx.floor("public stream operations", n, 14)
    # nobody else touches the private state
    priv = {ro.state, ro.queue, ro.requests, ro.requested}
    other = set()
    for nd in w.p.nodes:
        if nd["type"] == "AssignmentExpression" and nd["left"]["type"] == "MemberExpression" and nd["left"]["object"]["type"] == "ThisExpression" and not nd["left"]["computed"] and w.p.where[nd["id"]] not in {w.p.where[f[1]] for _, c, f, _ in roots}:
            other.add(nd["left"]["property"].get("name"))
    priv -= other
    own = {w.p.where[f[1]] for _, c, f, _ in roots}
    for nd in w.p.nodes:
        if nd["type"] in ("AssignmentExpression", "UpdateExpression"):
            l = nd.get("left") or nd.get("argument")
            if l["type"] == "MemberExpression" and not l["computed"] and l["property"].get("name") in priv and w.p.where[nd["id"]] not in own:
                ctx.require(l["object"]["type"] == "ThisExpression", "foreign-write", l["property"]["name"], f"{l['property']['name']} is written outside the stream script", w.p.line(nd["id"]))


def marker(w, ro):
    f = w.methods(ro.C).get("close")
    if not f:
        raise Missing("close", "the controller has no close method")
    got = {}

    class M:
        def event(self, e, st, kind, node, *a):
            if kind == "mcall" and a[1] == "push" and a[2] and a[2][0][0] == "obj":
                for (o, k), v in st.heap.items():
                    if o == a[2][0] and v[:1] in (("c",), ("b",)):
                        got[k] = v
    e = w.engine_for(M())
    e.run(f, ("this", ro.C))
    if not got:
        raise Missing("close-marker", "close() does not queue a recognisable end marker")
    return got


def finish(ctx, w, ro, rule, e, ex, name, c, f):
    for kind, v, st in ex:
        where = w.p.line(f[1])

        def req(cond, r, msg):
            ctx.require(cond, r, name, f"{name}: {msg} [{'; '.join(js.show(q, 4) + '=' + str(b) for q, b in list(st.facts.items())[:5])}]", where)
        # an answered read
        if name.endswith(".read") and w.p.nodes[f[1]].get("async") and not (kind == "return" and (v[0] == "prom" or v[0] == "obj" and v[1] == "Promise")):
            v, kind = ("prom", "ok" if kind == "return" else "err", v), "return"
        if v[0] == "prom" and v[1] == "ok" and name.endswith(".read"):
            rule.deliver(e, st, "ok", v[2], w.p.nodes[f[1]])
        elif v[0] == "obj" and v[1] == "Promise" and name.endswith(".read"):
            sv = st.heap.get((v, "$state"))
            if sv is None:
                req(("parked", v) in st.data, "read-parked", "the returned promise is never settled")
            elif sv[1] == "ok":
                rule.deliver(e, st, "ok", sv[2], w.p.nodes[f[1]])
        elif name.endswith(".read"):
            req(v[0] == "prom" and v[1] == "err", "read-answers", f"read() ends with {kind} {js.show(v)}")
        if name.endswith(".read") and v[0] == "prom" and v[1] == "err":
            s = e.read_prop(st, ("this", c), ro.stream_r)
            req(e.truth(st, s) is False or rule.not_readable(e, st, s), "read-error", "a read on a readable stream fails")
            if v[2][0] == "fld" and e.type_of(v[2][1]) == ro.S:
                ctx._p38read.add(v[2][2])
        out = {x[0]: x for x in st.data}
        req("swap" not in out, "pending-read-settled", "the list of pending reads is replaced and the reads in it are never settled")
        req("item" not in out, "chunk-delivered", "a chunk taken from the queue is lost")
        req("req" not in out, "pending-read-settled", "a pending read taken from the list is never settled")
        req("discard" not in out or discarded(e, st, ro, out["discard"][1]), "queue-cleared", "the stream is closed or errored early and its queue is kept")
        if "left" in out:
            s = out["left"][1]
            ok = rule.settled(e, st, s)
            if name.endswith("Reader.read") and not ok:
                ok = ("item" not in out)     # a reader that could take from the queue has no parked read (parked only when the queue is empty)
            req(ok, "settled-on-end", "the stream ends and reads may stay pending")
        if "queued" in out and kind == "return":
            k = out["queued"][1]
            s = e.read_prop(st, k, ro.stream_c)
            r = e.read_prop(st, s, ro.reader)
            rr, q = e.read_prop(st, r, ro.requests), e.read_prop(st, k, ro.queue)
            req(e.truth(st, r) is False or rule.empty(e, st, rr) or rule.empty(e, st, q), "delivered-at-once", "a chunk is queued while a read is waiting for it")
        if name.endswith("Controller.error") and "left" in out:
            ctx._p38kept.append({x[1] for x in st.data if x[0] == "kept"})
        if name.endswith("Controller.enqueue") and kind == "return":
            req("queued" in out or "handed" in out, "chunk-accepted", "enqueue() returns normally and the chunk is dropped")
        if name.endswith("Controller.close") and kind == "return":
            req("closing" in out or "left" in out, "close-accepted", "close() returns normally and the stream is not closed")
        if name.endswith("Reader.releaseLock") and kind == "return":
            t = ("this", c)
            before = ("fld", t, ro.stream_r)
            req("unlocked" in out or any(v2 is False and f2[:3] == before for f2, v2 in st.facts.items()), "lock-released", "releaseLock() returns and the stream stays locked")
        if "closing" in out and kind == "return":
            k = out["closing"][1]
            req(e.truth(st, e.read_prop(st, k, ro.requested)) is True, "close-requested", "the end marker is queued without noting the close request: more chunks could follow")
        req("dead" not in out, "dead-read", "the read fails while it stays in the list of pending reads: the next chunk is lost")
        req("usererr" not in out, "pull-failure", "a failing pull does not error the stream")
        for x in st.data:
            if x[0] == "user":
                t = x[2]
                th = e.read_prop(st, t, "then")
                na = e.truth(st, t) is False or e.truth(st, ("op", "===", ("typeof", th), ("c", "function"))) is False
                req(na or kind == "throw", "pull-failure", f"a rejected {x[1]}() is not observed")
        if name.endswith("Reader.constructor") and kind == "return":
            req("locked" in out, "constructor-locks", "a reader is created without taking the stream's lock: its reads would never be served")
        if name.endswith("getReader") and kind == "return":
            req("locked" in out and v == out["locked"][1], "getReader-locks", "getReader returns a reader that does not hold the lock")


def discarded(e, st, ro, s):
    q = e.read_prop(st, e.read_prop(st, s, ro.controller), ro.queue)
    return e.truth(st, e.read_prop(st, q, "length")) is False
