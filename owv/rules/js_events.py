"""P39: abort signals; P40: web sockets (embedded scripts)."""
from .. import js
from ..check import check, Missing
from .js_machine import Machine, Run

TRUE, FALSE = js.TRUE, js.FALSE


def counter(t):
    return isinstance(t, tuple) and t[:1] == ("counter",)


class Listeners(Machine):
    """an event target: lists of listeners, each notified once per event"""

    def lists(self, e, st, c):
        """(object, key) of the listener list that c is, or is a copy of; and whether it is the list itself"""
        live = True
        while True:
            if c[0] == "old":
                c = c[1]
            elif c[0] == "call" and c[1] in ("slice", "Array.from", "values") and c[2]:
                c, live = c[2][0], False
            elif c[0] == "spread":
                c, live = c[1], False
            elif c[0] == "obj" and c[1] == "Array" and len(st.heap.get((c, "$items"), ())) == 1 and st.heap[(c, "$items")][0][0] == "spread":
                c, live = st.heap[(c, "$items")][0][1], False
            else:
                break
        r = self.list_of(e, st, c)
        return (r[0], r[1], live) if r else None

    def list_of(self, e, st, c):
        if c[0] == "typed" and c[1][0] == "list":
            return c[1][1], ("c", c[1][2])
        for o, f, k in self.slots(e, st, c):
            if f == self.store and e.type_of(o) == self.cls:
                return o, k
        return None

    def slots(self, e, st, c):
        """(object, field, key) this collection is stored under"""
        if self.keyed:
            if c[0] == "fld":
                m = c[1][1] if c[1][0] == "old" else c[1]
                if m[0] == "fld":
                    yield m[1], m[2], c[2]
                for (b, f), v in st.heap.items():
                    if v == m:
                        yield b, f, c[2]
            for (m, k), v in list(st.heap.items()):
                if v == c and c[0] == "obj":
                    for (b, f), v2 in st.heap.items():
                        if v2 == m:
                            yield b, f, k
            if c[0] == "call" and c[1] == "get" and len(c[2]) == 2:
                m = c[2][0]
                if m[0] == "fld":
                    yield m[1], m[2], c[2][1]
        else:
            if c[0] == "fld":
                yield c[1], c[2], None
            for (b, f), v in st.heap.items():
                if v == c and c[0] in ("obj", "new"):
                    yield b, f, None

    def role(self):
        """the field that holds the listeners: where addEventListener puts its listener"""
        f = self.w.methods(self.cls).get("addEventListener")
        if not f:
            raise Missing("addEventListener", f"{self.name} has no addEventListener")
        lis = ("arg", self.w.engine.pname(self.w.p.nodes[f[1]]["params"][1], 1))
        found, m = set(), self

        class Find:
            def event(s, e, st, kind, node, *a):
                if kind == "mcall" and a[1] in ("push", "add", "unshift") and lis in a[2]:
                    found.update(x[1] for x in m.slots(e, st, a[0]) if e.type_of(x[0]) == m.cls)
                if kind == "set" and a[2][0] == "obj" and lis in st.heap.get((a[2], "$items"), ()) and e.type_of(a[0]) == m.cls:
                    found.add(a[1])
                if kind == "set" and a[2][0] == "call" and a[2][1] == "concat":
                    if e.type_of(a[0]) == m.cls and isinstance(a[1], str):
                        found.add(a[1])
                    found.update(x[1] for x in m.slots(e, st, a[2][2][0]) if e.type_of(x[0]) == m.cls)
        self.w.engine_for(Find()).run(f, ("this", self.cls))
        if len(found) != 1:
            raise Missing("role:listeners", f"cannot identify the field that holds the listeners of {self.name}: {sorted(found)}")
        return found.pop()

    # ---- events
    def is_el(self, e, st, f, el):
        if el[0] == "at":
            return f[0] == "fld" and f[2] == el[2] and self.list_of(e, st, f[1]) is not None or f[0] == "fld" and f[1] == el[1] and f[2] == el[2]
        return f == el

    def called(self, e, st, callee):
        """the listener elements that this call notifies"""
        fs = [callee]
        if isinstance(callee, tuple) and callee[0] == "fld" and callee[2] in ("call", "apply", "handleEvent"):
            fs.append(callee[1])
        return [x for x in st.data if x[0] == "el" and any(isinstance(f, tuple) and self.is_el(e, st, f, x[1]) for f in fs)]

    def on_event(self, r, e, st, kind, node, *a):
        if kind in ("elem", "loopend", "ielem", "iloopend"):
            l = self.lists(e, st, a[0])
            if not l:
                return
            o, k, live = l
            if live:
                self.live.add((self.w.p.line(node["id"])))
            left = [x for x in st.data if x[0] == "el" and x[3] == node["id"] and not x[4]]
            r.req(not left, "every-listener", "a listener is passed over", node, e)
            r.drop(st, lambda x: x[0] in ("el", "loop") and x[-2 if x[0] == "el" else -1] == node["id"])
            if kind in ("elem", "ielem"):
                el = a[1] if kind == "elem" else ("at", a[0], a[1])
                r.add(st, ("el", el, (o, k), node["id"], False))
                r.add(st, ("loop", (o, k), node["id"]))
            else:
                self.delivered(r, e, st, o, k, node)
        elif kind == "mcall":
            l = self.lists(e, st, a[0])
            if l and l[2]:
                self.changed(r, e, st, l[0], l[1], a[1], a[2], node)
        if kind == "set" and isinstance(a[1], str) and a[1] == self.store and r.watched(e, a[0]) and not self.keyed:
            self.replaced(r, e, st, a[0], a[2], node)
        if kind == "set" and self.keyed and a[0][0] in ("fld", "obj"):
            for (b, f) in [(a[0][1], a[0][2])] if a[0][0] == "fld" else [bf for bf, v in st.heap.items() if v == a[0]]:
                if f == self.store and r.watched(e, b) and not (a[0][0] == "obj" and r.creating(b)):
                    self.replaced(r, e, st, b, a[2], node, a[1])

    def on_call(self, r, e, st, callee, this, args, node):
        for x in self.called(e, st, callee):
            r.req(not x[4], "each-once", "a listener is called twice for one event", node, e)
            self.notified(r, e, st, x[2], args, node)
            r.drop(st, lambda y: y == x)
            r.add(st, x[:4] + (True,))

    def lis(self):
        f = self.root_fn
        ps = self.w.p.nodes[f[1]]["params"]
        return [("arg", self.w.engine.pname(p, i)) for i, p in enumerate(ps)]

    def known_in(self, e, st, o, l, lis):
        """is the listener known to be in the list: True/False/None"""
        for f, v in st.facts.items():
            f0, pol = f, v
            c = None
            if f[0] == "call" and f[1] in ("includes", "has") and f[2][1:] == (lis,):
                c, yes = f[2][0], v
            elif f[0] == "op" and f[1] == "===" and f[2][0] == "call" and f[2][1] in ("indexOf", "lastIndexOf") and f[2][2][1:] == (lis,) and f[3] in (("neg", ("c", 1)), ("c", -1)):
                c, yes = f[2][2][0], not v
            elif f[0] == "op" and f[1] == "<" and f[2][0] == "call" and f[2][1] in ("indexOf", "lastIndexOf") and f[2][2][1:] == (lis,) and f[3] == ("c", 0):
                c, yes = f[2][2][0], not v
            if c is not None and self.lists(e, st, c):
                return yes
        return None

    def changed(self, r, e, st, o, k, op, args, node):
        lis = self.lis()
        if op in ("push", "add", "unshift"):
            r.req(list(args) == lis[1:2], "registers-the-listener", f"something other than the given listener is registered: {[js.show(x) for x in args]}", node, e)
            if self.dedupe:
                r.req(op == "add" or self.known_in(e, st, o, k, lis[1]) is False, "registered-once", "a listener that is already registered is registered again: it would be notified twice", node, e)
            r.add(st, ("registered", k))
        elif op == "splice":
            i = args[0] if args else js.UNDEF
            ok = r.root.endswith("removeEventListener") and len(args) == 2 and args[1] == ("c", 1) and i[0] == "call" and i[1] in ("indexOf", "lastIndexOf") and i[2][1:] == (lis[1],) \
                and self.known_in(e, st, o, k, lis[1]) is True
            r.req(ok, "removes-only-that", "listeners other than the given one may be removed", node, e)
            r.add(st, ("removed", k))
            if self.judging:
                self.inplace.add(self.w.p.line(node["id"]))
        elif op == "delete":
            r.req(list(args) == lis[1:2], "removes-only-that", "listeners other than the given one may be removed", node, e)
            r.add(st, ("removed", k))
        elif op in ("pop", "shift", "clear", "fill", "sort", "reverse"):
            r.req(self.over(r, e, st, o), "removes-only-that", f"{op}() on the registered listeners", node, e)

    def over(self, r, e, st, o):
        """no event will be delivered any more"""
        return False

    def replaced(self, r, e, st, o, v, node, key=None):
        if r.creating(o) or o[0] == "obj" and (o, self.store) not in st.heap and key is None:
            return
        lis = self.lis()
        ok, what = False, None
        if v[0] == "call" and v[1] == "filter" and self.lists(e, st, v[2][0]):
            f = v[2][1]
            if f[0] == "each":
                t, pol = e.norm(f[1])
                el = [x for x in t[2:4]] if t[0] == "op" and t[1] == "===" else []
                ok = not pol and len(el) == 2 and lis[1] in el and any(x[0] == "elem" for x in el)
            what = "removed"
        elif v[0] == "call" and v[1] == "concat" and self.lists(e, st, v[2][0]) and len(v[2]) == 2 and (
                v[2][1] == lis[1] or v[2][1][0] == "obj" and st.heap.get((v[2][1], "$items")) == (lis[1],)):
            ok, what = True, "registered"
        elif v[0] == "obj" and v[1] == "Array":
            it = st.heap.get((v, "$items"), ())
            if len(it) == 2 and it[0][0] == "spread" and self.lists(e, st, it[0][1]) and it[1] == lis[1]:
                ok, what = True, "registered"
            elif not it:
                ok = self.over(r, e, st, o)
        if what == "registered" and self.dedupe:
            r.req(self.known_in(e, st, o, key, lis[1]) is False, "registered-once", "a listener that is already registered is registered again: it would be notified twice", node, e)
        if what == "removed":
            ok = ok and r.root.endswith("removeEventListener")
        r.req(ok, "listeners-kept", f"the registered listeners are replaced by {js.show(v)}", node, e)
        if what:
            r.add(st, (what, key))

    def common_end(self, r, e, st, kind, v, o):
        n = self.root_fn[1]
        for x in st.data:
            if x[0] == "loop":
                r.req(False, "every-listener", "the notification stops before every listener was called" + (" when one of them throws" if kind == "throw" else ""), n, e)

    def globally(self):
        if self.inplace and self.live:
            self.ctx.require(False, "every-listener", "removal", f"{self.name}: a listener that is removed from the list while it is being gone over ({sorted(self.inplace)[0]}) makes the next one be passed over", sorted(self.live)[0])

    def solve(self, runner):
        self.live, self.inplace = set(), set()
        self.root_fn = None
        self.store = self.role()
        self.ignored = frozenset({self.store})
        super().solve(runner)
        self.globally()

    def one(self, root, fn, *a, **k):
        self.root_fn = fn
        return super().one(root, fn, *a, **k)


class Notify(Run):
    def nullable(self, e, st, v):
        return False if v[0] == "elem" or v[0] == "fld" and counter(v[2]) else None


def behind(w, c, name):
    """the property that a getter hands out"""
    g = w.methods(c).get("get " + name)
    if not g:
        return name
    fs = set()
    for k, v, s in w.engine_for(None).run(g, ("this", c)):
        js.mentions(v, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[1] == ("this", c) and bool(fs.add(t[2])))
        fs |= {f[2] for f in s.facts if f[0] == "fld" and f[1] == ("this", c)}
    if len(fs) != 1:
        raise Missing(f"role:{name}", f"cannot identify the field behind {name}: {sorted(map(str, fs))}")
    return fs.pop()


class Signal(Listeners):
    keyed, dedupe = False, True

    def __init__(self, ctx, w, cls, ctl):
        super().__init__(ctx, w, cls, "AbortSignal")
        self.ctl = ctl
        self.ab, self.why = behind(w, cls, "aborted"), behind(w, cls, "reason")
        e = w.engine_for(None)
        k = w.methods(ctl).get("constructor")
        if k:
            e.run(k, ("obj", ctl, ("new",)))
            for q, v in e.ftypes.items():
                w.engine.ftypes.setdefault(q, set()).update(v)

    def creators(self):
        ms = self.w.methods(self.cls)
        yield "new AbortSignal", ms["constructor"], ("obj", self.cls, ("new",)), ("obj", self.cls, ("new",))
        for k, f in ms.items():
            if k.startswith("static ") and not k.split()[1].startswith("_"):
                yield "AbortSignal." + k.split()[1], f, self.cls, None

    def methods(self):
        for k, f in self.w.methods(self.cls).items():
            if isinstance(k, str) and " " not in k and not k.startswith(("_", "#")) and k != "constructor":
                yield f"AbortSignal.{k}", f, ("this", self.cls), ("this", self.cls)
        for k, f in self.w.methods(self.ctl).items():
            if isinstance(k, str) and " " not in k and not k.startswith(("_", "#")) and k != "constructor":
                yield f"AbortController.{k}", f, ("this", self.ctl), self.signal()

    def signal(self):
        e = self.w.engine_for(None)
        g = self.w.methods(self.ctl).get("get signal")
        st = e.base.fork()
        e.bump(st, {"id": -1})
        o = ("this", self.ctl)
        v = e.read_prop(st, o, "signal") if not g else next((v for k, v, s in e.run(g, o, st=st) if k == "return"), js.UNDEF)
        if e.type_of(v) != self.cls:
            raise Missing("role:signal", "cannot identify the signal of an AbortController")
        return v

    def bumps(self, r, e, st, callee, args):
        x = super().bumps(r, e, st, callee, args)
        return False if isinstance(callee, tuple) and callee[0] == "new" else x

    def host(self, e, st, f):
        return super().host(e, st, f)

    def first(self, e, st, o, f):
        return o[0] == "obj" and (o, f) not in st.heap

    def on_set(self, r, e, st, o, f, v, node):
        if f == self.ab:
            if self.first(e, st, o, f):
                r.req(v in (TRUE, FALSE), "aborted-once", f"aborted starts as {js.show(v)}", node, e)
                if v != TRUE:
                    return
            cur = e.read_prop(st, o, f)
            r.req(v == TRUE, "stays-aborted", f"aborted is set to {js.show(v)}", node, e)
            r.req(cur == FALSE or self.first(e, st, o, f), "aborted-once", "the signal is aborted although it may be aborted already", node, e)
            r.setg(st, o, "fired", 1)
            r.add(st, ("mine", o))
        elif f == self.why:
            if self.first(e, st, o, f) and v in (js.UNDEF, js.NULL):
                return
            r.req(not r.g(st, o, "reasoned"), "first-reason-kept", "the reason of a signal that is aborted already is replaced", node, e)
            r.setg(st, o, "reasoned", 1)
            r.add(st, ("reason", o, v))

    def mine(self, st, o):
        return ("mine", o) in st.data

    def ready(self, r, e, st, o, node):
        r.req(self.mine(st, o), "notified-once", "listeners are notified although the signal was not aborted by this call: they are notified again, or too early", node, e)
        r.req(not self.mine(st, o) or bool(r.g(st, o, "reasoned")), "reason-before-notice", "listeners are notified before the reason is recorded", node, e)

    def notified(self, r, e, st, ok, args, node):
        self.ready(r, e, st, ok[0], node)

    def on_call(self, r, e, st, callee, this, args, node):
        super().on_call(r, e, st, callee, this, args, node)
        if not self.called(e, st, callee) and not (isinstance(callee, str) and (callee.startswith("console.") or callee in js.PURE_FN)):
            for a in args:
                if a[0] == "obj" and st.heap.get((a, "type")) == ("c", "abort"):
                    o = next((x[1] for x in st.data if x[0] == "mine"), None)
                    r.req(o is not None, "notified-once", "an abort event is delivered although the signal was not aborted by this call", node, e)

    def delivered(self, r, e, st, o, k, node):
        if self.mine(st, o):
            r.req(("delivered", o) not in st.data, "notified-once", "the listeners are gone over twice", node, e)
            r.add(st, ("delivered", o))

    def over(self, r, e, st, o):
        return e.read_prop(st, o, self.ab) == TRUE

    def on_end(self, r, e, st, kind, v, pre, o):
        n = self.root_fn[1]
        self.common_end(r, e, st, kind, v, o)
        if o[0] == "fld" and r.root.startswith("AbortController"):
            pass
        ab = e.read_prop(st, o, self.ab)
        r.req(ab in (TRUE, FALSE), "aborted-once", f"aborted is {js.show(ab)}", n, e)
        if ab == TRUE:
            r.req(bool(r.g(st, o, "fired")), "aborted-once", "aborted without being fired", n, e)
            r.req(bool(r.g(st, o, "reasoned")), "first-reason-kept", "the signal is aborted without a reason", n, e)
        if self.mine(st, o):
            lst = e.read_prop(st, o, self.store)
            empty = lst[0] == "obj" and st.heap.get((lst, "$items")) == () and (lst, "$v") not in st.heap or e.truth(st, e.read_prop(st, lst, "length")) is False
            r.req(("delivered", o) in st.data or empty, "every-listener", "the signal is aborted and its listeners are not notified", n, e)
        was = dict(pre[0]).get(self.ab) if pre else None
        lis = self.lis()
        if r.root in ("AbortController.abort", "AbortSignal.abort") and kind == "return":
            r.req(ab == TRUE, "abort-aborts", "the signal is not aborted", n, e)
            if was != TRUE and lis:
                got = [x[2] for x in st.data if x[0] == "reason" and x[1] == o]
                und = e.truth(st, ("op", "===", lis[0], js.UNDEF))
                r.req(bool(got) and (got[-1] == lis[0] or und is True), "first-reason-kept", f"the reason is {js.show(got[-1]) if got else 'missing'} instead of the given one", n, e)
        elif r.root == "AbortSignal.timeout" and kind == "return":
            r.req(ab == FALSE, "aborted-once", "a signal with a timeout is aborted from the start", n, e)
            r.req(any(x[0] == "g" and x[1] == o and isinstance(x[2], tuple) and x[3] == 1 for x in st.data), "timeout-armed", "no timer is set", n, e)
        elif ": callback" in r.root:
            r.req(ab == TRUE, "abort-aborts", "the timeout passes and the signal is not aborted", n, e)
        elif r.root == "AbortSignal.throwIfAborted":
            if was == TRUE:
                r.req(kind == "throw" and v == e.read_prop(st, o, self.why), "throws-reason", "throwIfAborted() on an aborted signal does not throw its reason", n, e)
            elif was == FALSE:
                r.req(kind == "return", "throws-reason", "throwIfAborted() throws although the signal is not aborted", n, e)
        if len(lis) > 1 and kind == "return" and was != TRUE and e.truth(st, ("op", "===", lis[0], ("c", "abort"))) is not False:
            if r.root == "AbortSignal.addEventListener":
                bad = e.truth(st, ("nullish", lis[1])) is True or e.truth(st, ("op", "===", ("typeof", lis[1]), ("c", "function"))) is False
                r.req(("registered", None) in st.data or self.known_in(e, st, o, None, lis[1]) is True or bad, "registers-the-listener", "the listener is not registered", n, e)
            elif r.root == "AbortSignal.removeEventListener":
                r.req(("removed", None) in st.data or self.known_in(e, st, o, None, lis[1]) is False, "removed", "the listener stays registered", n, e)


@check("P39", "static analysis: finite-state abstraction of the embedded AbortSignal class, every method and callback explored from every reachable state with re-entrant user code",
       "Tenant code does not overwrite the public properties aborted and reason, nor the internals of the signal.")
def p39(ctx):
    """AbortSignal and AbortController are explored as a finite machine: from every reachable combination of the constants their fields hold, every public method and timer callback is walked on all
    paths; listeners are user code that may call any method again. The signal turns aborted only when it was not, its reason is written once, listeners are called only by the call
    that aborted it, after the reason is recorded, each one once, whatever the others do; registering is idempotent and removing removes that listener only."""
    w = js.world(ctx)
    S, C = w.cls("AbortSignal"), w.cls("AbortController")
    for n, c in (("AbortSignal", S), ("AbortController", C)):
        if c is None:
            raise Missing(f"class:{n}", f"class {n} is not installed by the setup scripts")
    m = Signal(ctx, w, S, C)
    m.solve(Notify)
    for t, how in m.R.items():
        ctx.sample(f"state {m.label(t)}: {how}")
    # the rest of the runtime does not touch the outcome
    for nd in w.p.nodes:
        if nd["type"] == "AssignmentExpression" and nd["left"]["type"] == "MemberExpression" and not nd["left"]["computed"] and nd["left"]["property"].get("name") in {"aborted", m.ab} \
                and w.p.where[nd["id"]].fn != w.p.where[S[1]].fn:
            ctx.require(False, "stays-aborted", "foreign", "aborted is written outside the signal's class", w.p.line(nd["id"]))
    ctx.floor("abstract signal states", len(m.R), 2)


class SocketRun(Notify):
    max_join = 1
    join_epochs = True

    def alias(self, e, st, base, prop):
        k = prop[1] if isinstance(prop, tuple) and prop[0] == "c" else prop
        if not isinstance(k, str) or k not in self.m.keys:
            return None
        o = base[1] if base[0] == "fld" and base[2] == self.m.store else next((b for (b, f), v in st.heap.items() if f == self.m.store and v == base and base[0] == "obj"), None)
        if o is not None and e.type_of(o) == self.m.cls:
            return ("typed", ("list", o, k), "Array")
        return None

    def group(self, e, st):
        """what the machine's state is made of stays apart"""
        return tuple(self.m.snap(self, e, st, o) for o in self.m.objects(self, e, st))

    def keep_fact(self, f):
        return f[0] == "nullish" and f[1][0] == "own" or js.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 2 and t[0] == "arg")

    def construct(self, e, st, f, args, n, out):
        if f[0] == "class" and f != self.m.cls:
            # other classes know nothing of sockets
            v = ("typed", js.cut(("new", e.cname(f), tuple(args), (n["id"], e.callpath[-2:]))), f)
            e.fresh(st, v)
            out.append(("throw", ("thrown", n["id"]), st.fork()))
            return [(st, v)]
        return None

    def call(self, e, st, f, this, args, n, out):
        t = e.type_of(this)
        if f[0] == "fn" and isinstance(t, tuple) and t[0] == "class" and t != self.m.cls and this[0] == "typed":
            v = js.cut(("call", ("of", this), tuple(args), (n["id"], e.callpath[-2:])))
            e.fresh(st, v)
            out.append(("throw", ("thrown", n["id"]), st.fork()))
            return [(st, v)]
        return super().call(e, st, f, this, args, n, out)


class Socket(Listeners):
    keyed, dedupe = True, False
    CONNECTING, OPEN, CLOSING, CLOSED = [("c", i) for i in range(4)]
    EVENTS = ("message", "close", "error", "open")

    def creators(self):
        ms = self.w.methods(self.cls)
        yield "new WebSocket", ms["constructor"], ("obj", self.cls, ("new",)), ("obj", self.cls, ("new",))
        for k, f in ms.items():
            if k.startswith("static ") and self.makes(f):
                yield "WebSocket." + k.split()[1], f, self.cls, None

    def lists_of_a_new_one(self):
        """the event types every new socket has listeners for"""
        seen, m = [], self

        class Look(SocketRun):
            def __init__(s):
                s.m = m

            def event(s, e, st, kind, node, *a):
                if kind == "set" and a[1] == m.store and e.type_of(a[0]) == m.cls and a[2][0] == "obj":
                    seen.append(frozenset(k[1] for k, v in st.heap.items() if k[0] == a[2] and isinstance(k[1], str) and not k[1].startswith("$") and v[0] == "obj" and v[1] == "Array"))

            def call(s, e, st, f, this, args, n, out):
                return [(st, js.UNDEF)] if m.host(e, st, f) else SocketRun.call(s, e, st, f, this, args, n, out)
            alias = survives = interrupt = group = None
        self.keys = frozenset()
        for root, fn, this, obj in self.creators():
            r = Look()
            r.obj = None
            self.w.engine_for(r).run(fn, this)
        ks = frozenset.intersection(*seen) if seen else frozenset()
        self.ctx.require(set(self.EVENTS) <= ks, "every-event-has-listeners", "new", f"a new socket has listeners for {sorted(ks)} only", "")
        return ks

    def makes(self, f):
        """a static method that hands out a socket"""
        e = self.w.engine_for(None)
        return any(k == "return" and e.type_of(v) == self.cls for k, v, s in e.run(f, self.cls))

    def methods(self):
        for k, f in self.w.methods(self.cls).items():
            if isinstance(k, str) and " " not in k and not k.startswith(("_", "#")) and k != "constructor":
                yield f"WebSocket.{k}", f, ("this", self.cls), ("this", self.cls)

    def bumps(self, r, e, st, callee, args):
        x = super().bumps(r, e, st, callee, args)
        return False if isinstance(callee, tuple) and callee[0] == "new" and callee[1] != "String" else x

    def oneshot(self, host):
        return host == "__nativeWebSocketConnect"

    def on_set(self, r, e, st, o, f, v, node):
        if f != "readyState" or o[0] == "obj" and (o, f) not in st.heap:
            return
        cur = e.read_prop(st, o, f)
        ok = v[0] == "c" and cur[0] == "c" and cur[1] <= v[1]
        r.req(ok, "forward-only", f"readyState goes from {js.show(cur)} to {js.show(v)}", node, e)

    def on_host(self, r, e, st, host, o, args, node):
        if o is None:
            return
        rs = e.read_prop(st, o, "readyState")
        if host == "__nativeWebSocketSend":
            r.req(rs == self.OPEN, "sends-only-open", f"data is sent in state {js.show(rs)}", node, e)
            r.req(len(args) == 2 and args[0] == e.read_prop(st, o, self.handle) and args[1] == self.lis()[0], "sends-that-data", f"{[js.show(x) for x in args]} is sent", node, e)
            r.req(("sent", o) not in st.data, "sends-that-data", "the data is sent twice", node, e)
            r.add(st, ("sent", o))
        elif host == "__nativeWebSocketClose":
            h = e.read_prop(st, o, self.handle)
            r.req(bool(args) and args[0] == h and h[0] not in ("null", "undef"), "closes-that-socket", f"the handle {js.show(args[0]) if args else ''} is closed", node, e)
            r.setg(st, o, "shut", 1)
        elif host == "__nativeWebSocketAccept":
            h = e.read_prop(st, o, self.handle)
            r.req(bool(args) and args[0] == h and h[0] not in ("null", "undef"), "receives-that-socket", f"messages are received for the handle {js.show(args[0]) if args else ''}", node, e)

    def evt(self, e, st, args):
        for a in args:
            if a[0] == "obj" and st.heap.get((a, "type"), ("x",))[0] == "c":
                yield a, st.heap[(a, "type")][1]

    def event_of(self, r, e, st, o, typ, who, node):
        """an event of this type is being delivered"""
        rs = e.read_prop(st, o, "readyState")
        if typ == "message":
            r.req(rs in (self.OPEN, self.CLOSING), "message-only-open", f"a message is dispatched in state {js.show(rs)}", node, e)
        elif typ == "open":
            # listeners notified before may have closed it meanwhile
            r.req(rs != self.CONNECTING, "open-before-event", f"the open event is delivered while readyState is {js.show(rs)}", node, e)
        elif typ == "close":
            mine = ("closing", o) in st.data
            r.req(rs == self.CLOSED, "closed-before-event", f"the close event is delivered while readyState is {js.show(rs)}", node, e)
            r.req(mine or not r.g(st, o, "closed"), "close-once", "the close event is delivered although it may have been delivered before", node, e)
            if not mine:
                r.setg(st, o, "closed", 1)
                r.add(st, ("closing", o))

    def notified(self, r, e, st, ok, args, node):
        for a, typ in self.evt(e, st, args):
            if ok[1] != ("c", typ):
                r.req(False, "right-listeners", f"listeners for {js.show(ok[1])} get an event of type {typ}", node, e)

    def on_call(self, r, e, st, callee, this, args, node):
        super().on_call(r, e, st, callee, this, args, node)
        if isinstance(callee, str) and (callee.startswith(("console.", "__")) or callee in js.PURE_FN) or isinstance(callee, tuple) and callee[0] == "new":
            return
        for o in self.objects(r, e, st):
            for a, typ in self.evt(e, st, args):
                self.event_of(r, e, st, o, typ, a, node)
                hs = [f for f in (callee, callee[1] if isinstance(callee, tuple) and callee[0] == "fld" and callee[2] in ("call", "apply") else None) if f]
                for f in hs:
                    k = f[2] if isinstance(f, tuple) and f[0] == "fld" and f[1] == o else None
                    k = k[1] if isinstance(k, tuple) and k[0] == "c" else k
                    if isinstance(k, str) and k.startswith("on"):
                        r.req(k == "on" + typ, "right-listeners", f"{k} gets an event of type {typ}", node, e)
                        r.req(("handled", typ) not in st.data, "each-once", f"{k} is called twice for one event", node, e)
                        r.add(st, ("handled", typ))
                if typ == "message":
                    r.req(st.heap.get((a, "data")) in self.lis(), "data-unaltered", f"the message carries {js.show(st.heap.get((a, 'data'), js.UNDEF))}", node, e)

    def delivered(self, r, e, st, o, k, node):
        if k[0] == "c":
            self.event_of(r, e, st, o, k[1], None, node)
            r.add(st, ("delivered", k[1]))

    def over(self, r, e, st, o):
        return bool(r.g(st, o, "closed")) and e.read_prop(st, o, "readyState") == self.CLOSED

    def on_end(self, r, e, st, kind, v, pre, o):
        n = self.root_fn[1]
        self.common_end(r, e, st, kind, v, o)
        rs = e.read_prop(st, o, "readyState")
        r.req(rs[0] == "c" and rs[1] in range(4), "forward-only", f"readyState is {js.show(rs)}", n, e)
        was = dict(pre[0]).get("readyState") if pre else None
        gs = {k: v for k, v in self.snap(r, e, st, o)[1]}
        if rs == self.CLOSED:
            r.req(bool(gs.get("closed")), "close-once", "the socket is closed and no close event is delivered", n, e)
        if ("closing", o) in st.data:
            r.req(rs == self.CLOSED, "close-once", "a close event is delivered and the socket does not become closed", n, e)
            r.req(("delivered", "close") in st.data, "close-once", "the listeners of the close event are not notified", n, e)
        if rs == self.CLOSING:
            r.req(bool(gs.get("shut")) or gs.get(("cb", "__nativeWebSocketConnect")) == 1, "close-reaches-network", "the socket waits to be closed although the network was not told", n, e)
        lis = self.lis()
        if r.root == "WebSocket.send" and kind == "return" and was == self.OPEN:
            r.req(("sent", o) in st.data, "sends-that-data", "the data is not sent", n, e)
        if r.root == "WebSocket.close" and kind == "return" and was == self.OPEN:
            r.req(rs != self.OPEN, "close-reaches-network", "close() leaves the socket open", n, e)
        if r.root == "WebSocket.close" and kind == "return" and was == self.CONNECTING:
            r.req(rs != self.CONNECTING, "close-reaches-network", "close() leaves the socket connecting", n, e)
        if ": callback" in r.root:
            self.ctx.counts["callback exits"] = self.ctx.counts.get("callback exits", 0) + self.judging
            r.req(kind == "return", "callback-completes", "a network event ends with an exception", n, e)
            if "Connect" in r.root:
                if r.root.split("callback ")[1].startswith(self.failing):
                    r.req(rs == self.CLOSED and ("closing", o) in st.data, "close-once", "the connection fails and the socket is not closed with a close event", n, e)
                else:
                    r.req(rs != self.CONNECTING, "forward-only", f"the connection is made and readyState is {js.show(rs)}", n, e)
                    r.req(rs != self.CLOSED or bool(gs.get("shut")), "close-reaches-network", "a socket that was closed while connecting becomes closed and the connection stays", n, e)
            elif "Accept" in r.root:
                t = lis[0] if lis else None
                is_ = [x for x in self.EVENTS if e.truth(st, ("op", "===", t, ("c", x))) is True]
                if is_ == ["close"]:
                    r.req(rs == self.CLOSED, "close-once", "the network closes the socket and it is not closed", n, e)
                elif is_ == ["message"] and was == self.OPEN:
                    r.req(("delivered", "message") in st.data, "message-delivered", "a message is not delivered although the socket is open", n, e)
        if len(lis) > 1 and kind == "return" and r.root in ("WebSocket.addEventListener", "WebSocket.removeEventListener"):
            unknown = any(f[0] in ("fld", "call") and v is False and self.list_of(e, st, f) for f, v in st.facts.items()) or any(
                f[0] == "nullish" and v is True and self.list_of(e, st, f[1]) for f, v in st.facts.items())
            add = r.root.endswith("addEventListener")
            done = any(x[0] == ("registered" if add else "removed") for x in st.data)
            r.req(done or unknown or self.known_in(e, st, o, None, lis[1]) is add, "registers-the-listener" if add else "removed", "the listener is not " + ("registered" if add else "removed"), n, e)


@check("P40", "static analysis: finite-state abstraction of the embedded WebSocket class, every method and network callback explored from every reachable state with re-entrant user code",
       "The host calls one of the two connect callbacks once (P21) and delivers network events one at a time; tenant code does not overwrite readyState or the internals of the socket.")
def p40(ctx):
    """WebSocket is explored as a finite machine: from every reachable combination of the constants its fields hold, every public method, both connect callbacks and the event callback are walked on
    all paths, handlers being user code that may call any method again. readyState only grows; data goes to the network only in the open state; a message is dispatched only after
    opening and before closing; the close event is delivered once, when the socket becomes closed, whichever events the network reports; each listener is called once per event."""
    w = js.world(ctx)
    S = w.cls("WebSocket")
    if S is None:
        raise Missing("class:WebSocket", "class WebSocket is not installed by the setup scripts")
    m = Socket(ctx, w, S, "WebSocket")
    # the handle: what the native send gets first
    found, fns = set(), []

    class Find:
        def call(s, e, st, f, this, args, n, out):
            if f == ("global", "__nativeWebSocketSend") and args:
                if args[0][0] == "fld":
                    found.add(args[0][2])
                return [(st, js.UNDEF)]
            return None
    w.engine_for(Find()).run(w.methods(S)["send"], ("this", S))
    if len(found) != 1:
        raise Missing("role:handle", f"cannot identify the field with the native handle: {sorted(found)}")
    m.handle, m.failing = found.pop(), "3"
    m.store = m.role()
    m.keys = m.lists_of_a_new_one()
    m.solve(SocketRun)
    for t, how in m.R.items():
        ctx.sample(f"state {m.label(t)}: {how}")
    ctx.floor("abstract socket states", len(m.R), 4)
    ctx.floor("exits of network callbacks", ctx.counts.get("callback exits", 0), 6)
