"""Objects of embedded classes as finite machines: the constants their fields can hold, every method and host callback explored from every
reachable combination, user code in between judged by the states it can lead to. Used by P39 (abort signals) and P40 (web sockets)."""
from .. import js
from ..check import Missing

SCALAR = ("c", "b", "null", "undef")


def own(f):
    return ("own", f)


class Run:
    """one action of the machine from one state (or a creation)"""

    def __init__(self, m, root, obj=None):
        self.m, self.root, self.obj = m, root, obj
        self.inner = False

    # -- ghosts are kept per object in the path's data
    def g(self, st, o, name):
        return next((x[3] for x in st.data if x[0] == "g" and x[1] == o and x[2] == name), 0)

    def setg(self, st, o, name, v):
        st.data = tuple(x for x in st.data if not (x[0] == "g" and x[1] == o and x[2] == name)) + ((("g", o, name, v),) if v else ())
        st.data = tuple(sorted(st.data, key=repr))

    def add(self, st, x):
        if x not in st.data:
            st.data = tuple(sorted(st.data + (x,), key=repr))

    def drop(self, st, pred):
        st.data = tuple(x for x in st.data if not pred(x))

    def req(self, c, rule, msg, node, e):
        if self.m.judging:
            self.m.ctx.require(c, rule, self.root, f"{self.root}: {msg}", e.p.line(node["id"] if isinstance(node, dict) else node))

    def watched(self, e, t):
        return t is not None and e.type_of(t) == self.m.cls and t[0] in ("this", "obj", "fld", "typed", "arg", "old")

    def field(self, e, st, o, f):
        return e.read_prop(st, o, f)

    # -- engine hooks
    def bumps(self, e, st, callee, args):
        return self.m.bumps(self, e, st, callee, args)

    def throws(self, e, st, callee, args):
        return False if isinstance(callee, str) and callee.startswith("__") else None

    def keep_fact(self, f):
        return True

    def call(self, e, st, f, this, args, n, out):
        host = self.m.host(e, st, f)
        if host:
            fns = [(i, a) for i, a in enumerate(args) if a[0] == "fn"]
            o = next((x for x in (self.obj, this) if x is not None and self.watched(e, x)), None)
            if o is None:
                o = self.made(e, st)
            self.m.on_host(self, e, st, host, o, args, n)
            if fns and o is not None:
                if self.m.collecting:
                    self.m.callbacks.setdefault((host, tuple(i for i, _ in fns), n["id"]), (fns, o, st.fork(), e))
                self.setg(st, o, ("cb", host), 1)
            return [(st, ("call", host, tuple(a for a in args if a[0] != "fn"), n["id"]))]
        return None

    def made(self, e, st):
        """the object a static creator has made"""
        c = {k[0] for k in st.heap if k[0][0] == "obj" and e.type_of(k[0]) == self.m.cls}
        return next(iter(c)) if len(c) == 1 else None

    def interrupt(self, e, st, node):
        res = [st]
        for o in self.m.objects(self, e, st):
            nxt = []
            for s in res:
                pre = self.g(s, o, "pre")
                if not pre:
                    nxt.append(s)
                    continue
                for u in sorted(self.m.after(pre), key=repr):
                    s2 = s.fork()
                    self.m.put(self, e, s2, o, u)
                    nxt.append(s2)
            res = nxt
        return res

    def survives(self, e, st, b, prop, v):
        """an object made by this very call is out of reach of other code until it is handed out"""
        o = b if e.type_of(b) == self.m.cls else next((k[0] for k, w in st.heap.items() if w == b and e.type_of(k[0]) == self.m.cls and k[0][0] == "obj"), None)
        return o is not None and o[0] == "obj" and (o != self.obj or self.creating(o)) and ("out", o) not in st.data

    def creating(self, o):
        return o[0] == "obj" and o[2] == ("new",) and not self.inner

    def event(self, e, st, kind, node, *a):
        m = self.m
        if kind == "set" and isinstance(a[1], str) and self.watched(e, a[0]):
            if a[2][0] in SCALAR and a[1] not in m.fields and m.collecting and a[1] not in m.ignored:
                m.grow.add(a[1])
            m.on_set(self, e, st, a[0], a[1], a[2], node)
        elif kind == "bump":
            # keep what the object looked like when other code started to run
            for o in m.objects(self, e, st):
                self.setg(st, o, "pre", m.snap(self, e, st, o))
        elif kind == "call":
            if not (isinstance(a[0], str) and (a[0].startswith(("__", "console.")) or a[0] in js.PURE_FN)):
                for x in a[2]:
                    for o in [x] + [v for k, v in st.heap.items() if k[0] == x]:
                        if o[0] == "obj" and e.type_of(o) == m.cls:
                            self.add(st, ("out", o))
            m.on_call(self, e, st, a[0], a[1], a[2], node)
        m.on_event(self, e, st, kind, node, *a)


class Machine:
    ignored = frozenset()

    def __init__(self, ctx, w, cls, name):
        self.ctx, self.w, self.cls, self.name = ctx, w, cls, name
        self.fields, self.grow = set(), set()
        self.judging, self.collecting = False, True
        self.callbacks, self.R, self.edges = {}, {}, {}

    # hooks of the concrete rule
    def bumps(self, r, e, st, callee, args):
        if isinstance(callee, str):
            return False if callee.startswith(("__", "console.")) or callee in js.PURE_FN and callee != "String" else None
        return None

    def host(self, e, st, f):
        if f[0] == "global" and f[1].startswith("__native"):
            return f[1]
        for n in ("setTimeout", "setInterval"):
            if f == self.w.globals(n) or f == ("global", n):
                return n
        return None

    def on_set(self, r, e, st, o, f, v, node):
        pass

    def on_call(self, r, e, st, callee, this, args, node):
        pass

    def on_host(self, r, e, st, host, o, args, node):
        pass

    def on_event(self, r, e, st, kind, node, *a):
        pass

    def on_end(self, r, e, st, kind, v, pre, o):
        pass

    def enabled(self, key, t):
        return True

    # -- states
    def objects(self, r, e, st):
        o = r.obj
        return [o] if o is not None and not r.creating(o) else []

    def abs(self, f, v):
        return v if v[0] in SCALAR else own(f)

    def snap(self, r, e, st, o):
        fs = []
        for f in sorted(self.fields):
            v = e.read_prop(st, o, f)
            if v[0] not in SCALAR:
                for c in self.consts.get(f, ()):
                    if e.truth(st, ("op", "===", v, c)) is True:
                        v = c
            fs.append((f, self.abs(f, v)))
        gs = tuple(sorted(((x[2], x[3]) for x in st.data if x[0] == "g" and x[1] == o and x[2] != "pre"), key=repr))
        return (tuple(fs), gs)

    def put(self, r, e, st, o, t):
        for f, v in t[0]:
            st.heap[(o, f)] = v
            if v == own(f):
                st.facts[("nullish", v)] = False
        st.data = tuple(x for x in st.data if not (x[0] == "g" and x[1] == o)) + tuple(("g", o, k, v) for k, v in t[1])
        st.data = tuple(sorted(st.data, key=repr))

    def label(self, t):
        return ", ".join(f"{f}={js.show(v)}" for f, v in t[0]) + (" | " + ", ".join(f"{k}={v}" for k, v in t[1]) if t[1] else "")

    def after(self, t):
        """states that user code can leave behind when it runs in state t"""
        seen, work = {t}, [t]
        while work:
            for u in self.edges.get(work.pop(), ()):
                if u not in seen:
                    seen.add(u)
                    work.append(u)
        return seen

    def reach(self, t, how):
        if t not in self.R:
            self.R[t] = how
            if len(self.R) > 200:
                raise Missing("machine:size", f"{self.name}: more than 200 abstract states: {self.label(t)}")
            return True
        return False

    # -- exploration
    def creators(self):
        """[(root name, fn, this)]"""
        raise NotImplementedError

    def methods(self):
        """[(root name, fn, this term, watched object term)]: what tenant code can call on a finished object"""
        raise NotImplementedError

    def one(self, root, fn, this, obj, args, st, t, creator=False):
        r = self.runner(self, root, obj)
        e = self.w.engine_for(r)
        if st is None:
            st = e.base.fork()
            r.obj = None
            e.bump(st, {"id": -1})
            r.obj = obj
        else:
            r.inner = True
            e.parent.update(self.parents.get(root, {}))
            e.bump(st, {"id": -1})
        if t is not None:
            st.data = ()
            self.put(r, e, st, obj, t)
        self.begin(r, e, st, obj, t)
        ex = js.explore(self.ctx, e, fn, root, this, args, st)
        out = []
        for kind, v, s in ex:
            o = obj if obj is not None else v if kind == "return" and r.watched(e, v) else None
            if o is None:
                continue
            if creator and kind != "return":
                continue
            u = self.snap(r, e, s, o)
            self.on_end(r, e, s, kind, v, t, o)
            out.append(u)
        return out, e

    def begin(self, r, e, st, o, t):
        pass

    def sweep(self):
        changed = False
        for root, fn, this, obj in self.creators():
            us, e = self.one(root, fn, this, obj, None, None, None, creator=True)
            for u in us:
                changed |= self.reach(u, root)
        for t in list(self.R):
            if self.grow - self.fields:
                return False
            for root, fn, this, obj in self.methods():
                us, e = self.one(root, fn, this, obj, None, None, t)
                for u in us:
                    changed |= self.reach(u, f"{root} from {self.label(t)}")
                    if u not in self.edges.setdefault(t, set()):
                        self.edges[t].add(u)
                        changed = True
            for key, (fns, o, s0, e0) in list(self.callbacks.items()):
                host = key[0]
                if dict(t[1]).get(("cb", host)) != 1 or not self.enabled(key, t):
                    continue
                for i, f in fns:
                    root = f"{self.name}: callback {i} of {host}"
                    self.parents[root] = e0.parent
                    t2 = (t[0], tuple(x for x in t[1] if x[0] != ("cb", host)) + (((("cb", host), 2),) if self.oneshot(host) else ((("cb", host), 1),)))
                    t2 = (t2[0], tuple(sorted(t2[1], key=repr)))
                    n = self.w.p.nodes[f[1]]
                    us, _ = self.one(root, f, js.UNDEF, o, None, s0.fork(), t2)
                    for u in us:
                        changed |= self.reach(u, f"{root} from {self.label(t)}")
        return changed

    def oneshot(self, host):
        return host not in ("setInterval",)

    def solve(self, runner):
        self.runner, self.parents, self.consts = runner, {}, {}
        while True:
            self.R, self.edges, self.callbacks, self.grow = {}, {}, {}, set()
            n = 0
            while self.sweep():
                n += 1
                if n > 30:
                    raise Missing("machine:fixpoint", f"{self.name}: no fixpoint")
            if not self.grow:
                break
            self.fields |= self.grow
        self.judging, self.collecting = True, False
        self.sweep()
        if not self.R:
            raise Missing("machine:empty", f"{self.name}: no object can be created")
        for t, how in self.R.items():
            self.ctx.sample(f"{self.name} state: {self.label(t)} ({how})") if hasattr(self.ctx, "sample") else None
