"""P41: timers (embedded timer script)."""
from .. import js
from ..check import check, Missing

NATIVE = {"setTimeout": "__nativeScheduleTimeout", "setInterval": "__nativeScheduleInterval"}
COERCE = ("Number", "Math.trunc", "parseInt", "Number.parseInt", "Math.floor")


def base_of(t):
    return t[1] if t[0] == "old" else t


def key_of(k):
    """the value a timer key was coerced from"""
    while k[0] == "call" and k[1] in COERCE and len(k[2]) == 1:
        k = k[2][0]
    return k


def walk(st, v, p):
    """the part of a stored value that a chain of property names selects"""
    for f in p:
        if v[0] != "obj":
            return None
        it = st.heap.get((v, "$items"))
        v = (it[f] if it is not None and f < len(it) else None) if isinstance(f, int) else st.heap.get((v, f), js.UNDEF)
        if v is None:
            return None
    return v


class Op:
    """one of the timer functions on all its paths"""
    max_join = 64

    def __init__(self, ctx, w, name):
        self.ctx, self.w, self.name = ctx, w, name
        self.exits, self.sets, self.snaps = [], [], []

    def req(self, c, rule, msg, node, e):
        self.ctx.require(c, rule, self.name, f"{self.name}: {msg}", e.p.line(node["id"] if isinstance(node, dict) else node))

    def add(self, st, *x):
        if x not in st.data:
            st.data = tuple(sorted(st.data + (x,), key=repr))

    def of(self, st, *kinds):
        return [x for x in st.data if x[0] in kinds]

    def keep_fact(self, f):
        return True

    def bumps(self, e, st, callee, args):
        return False if isinstance(callee, str) and callee.startswith("__native") else None

    def call(self, e, st, f, this, args, n, out):
        if f[0] == "global" and f[1] in ("Number", "String", "parseInt", "parseFloat") and args and args[0][0] in ("arg", "rest"):
            # the conversion of what the script passed may run code of the script
            t = ("thrown", (n["id"], "coercion"))
            s2 = st.fork()
            e.bump(s2, n)
            out.append(("throw", t, s2))
            e.bump(st, n)
        return None

    def store(self, e, st, t):
        """the shared collection that t is"""
        t = base_of(t)
        if t[0] == "fld" and t[1] == js.G:
            return t[2]
        return t if t[0] == "obj" and (t, "$v") in e.base.heap or t in self.w.shared_maps else None

    def slot(self, e, st, t):
        t = base_of(t)
        if t[0] == "call" and t[1] == "get" and len(t[2]) == 2:
            s = self.store(e, st, t[2][0])
            return (s, t[2][1]) if s else None
        if t[0] == "fld" and isinstance(t[2], tuple):
            s = self.store(e, st, t[1])
            return (s, t[2]) if s else None
        return None

    def path(self, e, st, t):
        """((collection, key), names) of a value found in a shared collection"""
        p = []
        while True:
            s = self.slot(e, st, t)
            if s:
                return s, tuple(reversed(p))
            t = base_of(t)
            if t[0] == "fld" and (isinstance(t[2], str) or t[2][0] == "c"):
                p.append(t[2] if isinstance(t[2], str) else t[2][1])
                t = t[1]
            else:
                return None

    def event(self, e, st, kind, node, *a):
        if kind == "mcall":
            s = self.store(e, st, a[0])
            if s is None:
                return
            if a[1] == "set":
                self.put(e, st, s, a[2][0], a[2][1], node)
            elif a[1] == "add":
                self.put(e, st, s, a[2][0], js.TRUE, node)
            elif a[1] == "delete":
                self.gone(e, st, s, a[2][0], node)
            elif a[1] == "clear":
                self.req(False, "other-timers-kept", "all timers are dropped", node, e)
        elif kind == "set":
            if a[0] == js.G:
                if isinstance(a[1], str):
                    self.counter(e, st, a[1], a[2], node)
                return
            s = self.store(e, st, a[0])
            if s is not None and isinstance(a[1], tuple):
                if a[2] == js.UNDEF:
                    self.gone(e, st, s, a[1], node)
                else:
                    self.put(e, st, s, a[1], a[2], node)
        elif kind == "delete":
            s = self.store(e, st, a[0])
            if s is not None and isinstance(a[1], tuple):
                self.gone(e, st, s, a[1], node)
        elif kind == "call":
            self.called(e, st, a[0], a[1], a[2], node)

    def counter(self, e, st, f, v, node):
        self.sets.append((f, e.p.line(node["id"])))

    def put(self, e, st, s, k, v, node):
        self.req(False, "callback-kept", f"an entry of {s} is replaced", node, e)

    def gone(self, e, st, s, k, node):
        self.add(st, "gone", s, k)

    def called(self, e, st, callee, this, args, node):
        if isinstance(callee, str) and callee.startswith("__nativeSchedule"):
            self.req(False, "right-schedule", f"{callee} is called", node, e)


class Create(Op):
    """setTimeout / setInterval"""

    def counter(self, e, st, f, v, node):
        old = e.base.heap.get((js.G, f))
        if old is None or old[0] != "c":
            return super().counter(e, st, f, v, node)
        ok = v[0] == "op" and v[1] == "+" and v[3][0] == "c" and isinstance(v[3][1], int) and v[3][1] > 0 and v[2][0] == "fld" and v[2][1:3] == (js.G, f)
        self.req(ok, "fresh-ids", f"the identifier counter becomes {js.show(v)}, not its value plus one", node, e)
        if ok:
            self.req(v[2][3] == st.epoch and not self.of(st, "counter"), "fresh-ids", "the identifier counter is advanced from a value that is out of date", node, e)
            self.add(st, "counter", f, v[2], v)

    def put(self, e, st, s, k, v, node):
        self.snaps.append((e, st.fork(), dict(e.parent)))
        self.add(st, "put", s, k, v, len(self.snaps) - 1)

    def gone(self, e, st, s, k, node):
        self.req(False, "callback-kept", f"an entry of {s} is dropped", node, e)

    def called(self, e, st, callee, this, args, node):
        if isinstance(callee, str) and callee.startswith("__nativeSchedule"):
            self.req(callee == NATIVE[self.name], "right-schedule", f"{callee} is called", node, e)
            self.req(not self.of(st, "sched"), "scheduled-once", "the timer is scheduled twice", node, e)
            self.add(st, "sched", args[0] if args else js.UNDEF)
        elif callee == ("arg", self.cb) or isinstance(callee, tuple) and callee[0] == "fld" and callee[1] == ("arg", self.cb):
            if not (isinstance(callee, tuple) and callee[0] == "fld" and callee[2] == "bind"):
                self.req(False, "fires-later", "the callback is called at once", node, e)

    def finish(self, e, ex):
        n = 0
        for kind, v, st in ex:
            node = self.fn[1]
            sched, cnt = self.of(st, "sched"), self.of(st, "counter")
            if kind == "throw" and not sched:
                continue
            n += 1
            self.req(bool(sched), "scheduled-once", "the timer is not scheduled", node, e)
            if not sched:
                continue
            i = sched[0][1]
            self.req(len(cnt) == 1 and i in cnt[0][2:], "fresh-ids", f"the timer's identifier {js.show(i)} is not a fresh value of the counter", node, e)
            if kind == "return":
                self.req(v == i, "callback-kept", f"the script gets the identifier {js.show(v)} for the timer {js.show(i)}", node, e)
            puts = self.of(st, "put")
            for p in puts:
                self.req(p[2] == i, "callback-kept", f"an entry is stored under {js.show(p[2])}", node, e)
            self.exits.append((st, i, {p[1]: p[3] for p in puts if p[2] == i}, {p[1]: self.snaps[p[4]][1] for p in puts}))
        return n

    def runs(self, e, st, v, args):
        """calling v with args calls the script's callback once, with the script's arguments"""
        rest = ("arg", "rest")
        none = any(b is False and f[0] == "fld" and f[2] == "length" and f[1] == rest for f, b in st.facts.items())
        want = (("spread", rest),)

        def fits(callee, args):
            args = tuple(args)
            while isinstance(callee, tuple) and callee[0] == "fld" and callee[2] in ("call", "apply"):
                if callee[2] == "apply":
                    args = (("spread", args[1]),) if len(args) > 1 else ()
                else:
                    args = args[1:]
                callee = callee[1]
            if callee != ("arg", self.cb):
                return False
            return none and args in ((), want) or args == want
        if v == ("arg", self.cb):
            return fits(v, args)
        if v[0] == "call" and v[1] in ("bind", ("fld", ("arg", self.cb), "bind")) or v[0] == "bound":
            return False
        if v[0] == "fn":
            hits, bad = [], []
            me = self

            class Look:
                max_join = 1

                def event(s, e2, st2, kind, node, *a):
                    if kind == "call" and isinstance(a[0], tuple) and js.mentions(a[0], lambda t: t == ("arg", me.cb)):
                        (hits if fits(a[0], a[2]) else bad).append(node["id"])
                        st2.data += (("hit", node["id"]),)
            e2 = self.w.engine_for(Look())
            e2.parent.update(e.parent)
            ok = True
            later = st.fork()
            e2.bump(later, {"id": -2})      # other timers are created before it expires
            for kind, x, s in e2.run(v, js.UNDEF, None, later):
                k = [y for y in s.data if y[0] == "hit"]
                ok = ok and (len(k) == 1 or not k and kind == "throw" and e2.truth(s, ("nullish", ("arg", self.cb))) is True)
            return ok and bool(hits) and not bad
        return False


class Fire(Op):
    """what the host calls when a timer has expired"""

    def key(self, k):
        return key_of(k) == self.arg

    def gone(self, e, st, s, k, node):
        self.req(self.key(k), "other-timers-kept", f"the entry {js.show(k)} is dropped", node, e)
        self.add(st, "gone", s, st.epoch)

    def called(self, e, st, callee, this, args, node):
        super().called(e, st, callee, this, args, node)
        if isinstance(callee, str) and (callee.startswith("console.") or callee in js.PURE_FN):
            return
        if isinstance(callee, str) and callee.startswith("__native"):
            self.req(callee == "__nativeClearTimer" and args and self.key(args[0]), "other-timers-kept", f"{callee} is called", node, e)
            return
        if isinstance(callee, tuple) and callee[0] == "new":
            return
        c, args = callee, tuple(args)
        if isinstance(c, tuple) and c[0] == "fld" and c[2] in ("call", "apply"):
            args = args[1:] if c[2] == "call" else (("spread", args[1]),) if len(args) > 1 else ()
            c = c[1]
        p = self.path(e, st, c) if isinstance(c, tuple) else None
        self.req(p is not None and self.key(p[0][1]), "own-callback", f"{js.show(callee) if isinstance(callee, tuple) else callee} is called, which is not what was stored for this timer", node, e)
        self.req(not self.of(st, "fired"), "fires-once", "the callback is called twice for one expiry", node, e)
        if p:
            ps = []
            for x in args:
                q = self.path(e, st, x[1]) if x[0] == "spread" else None
                ps.append(("spread", q[1]) if q and q[0] == p[0] else ("?", x))
            self.add(st, "fired", p[0][0], p[1], tuple(ps), st.epoch)


class Clear(Op):
    def throws(self, e, st, callee, args):
        return False if isinstance(callee, str) and callee.startswith("__native") else None     # it accepts every identifier of a timer

    def gone(self, e, st, s, k, node):
        self.req(key_of(k) == self.arg, "other-timers-kept", f"the entry {js.show(k)} is dropped", node, e)
        self.add(st, "gone", s)

    def called(self, e, st, callee, this, args, node):
        super().called(e, st, callee, this, args, node)
        if callee == "__nativeClearTimer":
            self.req(bool(args) and key_of(args[0]) == self.arg, "other-timers-kept", f"the timer {js.show(args[0]) if args else ''} is cleared", node, e)
            self.add(st, "native")

    def unknown(self, e, st):
        """the argument cannot be the identifier of a timer"""
        for f, v in st.facts.items():
            t = key_of(f[2][0]) if f[0] == "call" and f[1] in ("Number.isInteger", "Number.isSafeInteger", "Number.isFinite", "isFinite") and f[2] else None
            if t == self.arg and v is False:
                return True
            if f[0] == "call" and f[1] in ("Number.isNaN", "isNaN") and v is True and key_of(f[2][0]) == self.arg:
                return True
            if f[0] == "op" and f[1] == "<" and key_of(f[2]) == self.arg and f[3] in (("c", 0), ("c", 1)) and v is True:
                return True
            if f[0] == "op" and f[1] in ("<", "<=") and f[2] in (("c", 0), ("c", -1), ("neg", ("c", 1))) and key_of(f[3]) == self.arg and v is False:
                return True
            if f[0] == "nullish" and f[1] == self.arg and v is True:
                return True
            if f == self.arg and v is False or f[0] == "call" and f[1] in COERCE and key_of(f) == self.arg and v is False:
                return True
            if f[0] == "call" and f[1] == "has" and v is False and self.store(e, st, f[2][0]) == self.table and key_of(f[2][1]) == self.arg:
                return True
            s = self.slot(e, st, f)
            if s and v is False and s[0] == self.table and key_of(s[1]) == self.arg:
                return True
        return False


@check("P41", "static analysis: path-sensitive typestate over the embedded timer script (identifier counter, callback table, interval marks), creation paths composed with expiry paths",
       "The event loop sends one expiry per one-shot timer and none for a timer it has cleared (P22 covers the loop); tenant code does not overwrite the internal __ globals.")
def p41(ctx):
    """setTimeout, setInterval, clearTimeout/clearInterval and the expiry entry point are walked on all paths, conversions of arguments being user code. Each timer's identifier is a value of the counter
    that the same step makes stale; the table gets the script's callback (with its arguments) under that identifier before the timer is scheduled, and the script and the host get the same identifier.
    Clearing removes exactly that entry on every path on which the argument can denote a timer. Expiry calls exactly what was stored for that timer, once; composed with each way a timer is created,
    a one-shot timer's entry is gone on every exit (also when the callback throws) and an interval's entry stays unless it was cleared."""
    w = js.world(ctx)
    fns = {}
    for n in ("setTimeout", "setInterval", "clearTimeout", "clearInterval", "__executeTimer"):
        f = w.globals(n)
        if f is None or f[0] != "fn":
            raise Missing(f"role:{n}", f"no function {n} is installed")
        fns[n] = f
    w.shared_maps = frozenset(k[0] for k, v in w.base.heap.items() if k[0][0] == "obj" and k[0][1] in ("Map", "Set", "WeakMap", "Object"))
    used, engines, ops = set(), [], {}

    def prepare(cls, name):
        o = cls(ctx, w, name)
        o.fn = fns[name]
        e = w.engine_for(o)
        engines.append(e)
        ops[name] = o
        return o, e
    # what is done at expiry
    fire, e = prepare(Fire, "__executeTimer")
    ps = w.p.nodes[fire.fn[1]]["params"]
    if not ps:
        raise Missing("role:timer-id", "__executeTimer takes no timer identifier")
    fire.arg = ("arg", w.engine.pname(ps[0], 0))
    fex = js.explore(ctx, e, fire.fn, "__executeTimer")
    fe = e
    fired = {x for k, v, s in fex for x in fire.of(s, "fired")}
    tables = {x[1] for x in fired}
    if len(tables) != 1:
        raise Missing("role:timer-table", f"__executeTimer does not call what one table holds: {sorted(map(js.show, tables))}")
    table = tables.pop()
    # creation
    made = {}
    for name in ("setTimeout", "setInterval"):
        o, e = prepare(Create, name)
        ps = w.p.nodes[o.fn[1]]["params"]
        o.cb = w.engine.pname(ps[0], 0)
        ex = js.explore(ctx, e, o.fn, name)
        n = o.finish(e, ex)
        ctx.floor(f"ways to create a timer with {name}", n, 1)
        made[name] = (o, e)
        for st, i, puts, at in o.exits:
            o.req(table in puts, "callback-kept", "the timer is scheduled and no callback is stored for it", o.fn[1], e)
    # expiry composed with creation
    n = 0
    for name, (o, e) in made.items():
        for st, i, puts, at in o.exits:
            for kind, v, s in fex:
                fr = fire.of(s, "fired")
                if not feasible(fire, fe, s, st, puts, table, name == "setInterval", fr):
                    continue
                n += 1
                node = fire.fn[1]
                if table not in puts:
                    continue
                if not fr:
                    fire.req(kind == "throw" and False, "fires", f"a timer of {name} expires and its callback is not called", node, fe)
                    continue
                x = fr[0]
                val = walk(st, puts[table], x[2])
                args = tuple(("spread", walk(st, puts[table], p[1]) or js.UNDEF) if p[0] == "spread" else p for p in x[3])
                fire.req(val is not None and o.runs(e, at[table], val, args), "own-callback", f"what is called at expiry is not the callback given to {name} with its arguments, but {js.show(val or js.UNDEF)}", o.fn[1], e)
                gone = [y for y in fire.of(s, "gone") if y[1] == table]
                if name == "setTimeout":
                    fire.req(bool(gone), "one-shot-removed", "a one-shot timer's entry stays when its callback has been called" + (" and has thrown" if kind == "throw" else ""), node, fe)
                elif gone:
                    fire.req(cleared(fire, fe, s, st, puts, x), "interval-kept", "an interval that was not cleared is dropped when it expires", node, fe)
    ctx.floor("creation and expiry paths composed", n, 4)
    # clearing
    marks = {t for name in made for _, _, puts, _ in made[name][0].exits for t in puts}
    for name in ("clearTimeout", "clearInterval"):
        o, e = prepare(Clear, name)
        o.table = table
        ps = w.p.nodes[o.fn[1]]["params"]
        o.arg = ("arg", w.engine.pname(ps[0], 0)) if ps else None
        for kind, v, st in js.explore(ctx, e, o.fn, name):
            if o.unknown(e, st):
                continue
            g = {x[1] for x in o.of(st, "gone")}
            if kind == "throw" and not g and not o.of(st, "native") and any(isinstance(x, tuple) and "coercion" in x for x in v[1:2]):
                continue        # the argument itself could not be converted
            o.req(table in g, "cleared-never-fires", "a path leaves the callback of the timer in place", o.fn[1], e)
            if kind == "return":
                for m in sorted(map(str, marks - g)):
                    o.req(False, "cleared-never-fires", f"a path leaves the timer in {m}", o.fn[1], e)
                o.req(bool(o.of(st, "native")), "cleared-never-fires", "the event loop is not told", o.fn[1], e)
    # nobody else touches the tables or the counter
    seen = set().union(*(e.seen_fns for e in engines))
    counters = {x[1] for o, e in made.values() for st, i, puts, at in o.exits for x in o.of(st, "counter")}
    for name, o in ops.items():
        for f, line in o.sets:
            ctx.require(f not in counters | marks | {table}, "fresh-ids", f"{name}:{f}", f"{name}: {f} is overwritten", line)
    others(ctx, w, {t for t in marks if isinstance(t, str)} | {table} & {t for t in [table] if isinstance(t, str)}, counters, seen)
    ctx.sample(f"table {table if isinstance(table, str) else js.show(table)}, marks {sorted(map(str, marks))}, counters {sorted(counters)}")


def criterion(op, e, f):
    """(collection, names, what) when the fact is about an entry of a shared collection"""
    if f[0] == "nullish":
        r = criterion(op, e, f[1])
        return r and (r[0], r[1], "nullish")
    if f[0] == "call" and f[1] == "has":
        s = op.store(e, None, f[2][0])
        return (s, (), "has") if s else None
    if f[0] == "op" and f[1] == "===" and f[3][0] in ("c", "b", "undef", "null"):
        p = op.path(e, None, f[2])
        return (p[0][0], p[1], ("===", f[3])) if p else None
    p = op.path(e, None, f)
    return (p[0][0], p[1], "truthy") if p else None


def evaluate(st, puts, c):
    s, p, what = c
    if s not in puts:
        return {"has": False, "truthy": False, "nullish": True}.get(what if isinstance(what, str) else "", what[1] == js.UNDEF if not isinstance(what, str) else None)
    if what == "has":
        return True
    v = walk(st, puts[s], p)
    if v is None:
        return None
    if what == "truthy":
        return False if v in js.FALSY else True if v[0] in ("c", "b", "fn", "obj", "arg") else None
    if what == "nullish":
        return True if v in (js.UNDEF, js.NULL) else False if v[0] in ("c", "b", "fn", "obj", "arg") else None
    return v == what[1] if v[0] in ("c", "b", "undef", "null") else None


def feasible(op, e, s, st, puts, table, interval, fired):
    """can this expiry path be taken for a timer created like that and not cleared before"""
    for f, v in s.facts.items():
        c = criterion(op, e, f)
        if c is None:
            continue
        x = evaluate(st, puts, c)
        if x is None or x == v:
            continue
        late = after_call(op, f, fired)
        if not late or not interval and (c[0] not in puts) and v is True:
            return False        # entries appear only when a timer is created
    return True


def after_call(op, f, fired):
    """the fact was established after the callback ran"""
    late = []
    js.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[1] == js.G and bool(late.append(t[3])))
    sites = []
    js.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1] in ("get", "has") and bool(sites.append(t[3])))
    return bool(fired) and any(x != fired[0][4] for x in late) if late else False


def cleared(op, e, s, st, puts, fired):
    """the path knows that the interval was cleared meanwhile"""
    for f, v in s.facts.items():
        c = criterion(op, e, f)
        if c and after_call(op, f, [fired]) and evaluate(st, puts, c) is not None and evaluate(st, puts, c) != v:
            return True
    return False


def others(ctx, w, tables, counters, seen):
    """no other code of the embedded scripts changes the tables or the counter"""
    names, n = tables | counters, 0

    def go(x, fn, up, script):
        nonlocal n
        if isinstance(x, list):
            for y in x:
                go(y, fn, up, script)
            return
        if not isinstance(x, dict) or "type" not in x:
            return
        t = x["type"]
        if t in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression"):
            fn = x["id"]
            if fn in seen:
                return
        nm = x["property"].get("name") if t == "MemberExpression" and not x["computed"] else x["property"].get("value") if t == "MemberExpression" else x.get("name") if t == "Identifier" else None
        if nm in names and not (t == "Identifier" and up and up[-1]["type"] == "MemberExpression" and up[-1]["property"] is x):
            n += 1
            o = up[-1] if up else None
            call = up[-2] if len(up) > 1 else None
            ok = False
            if o and o["type"] == "AssignmentExpression" and o["left"] is x:
                ok = fn is None and script.fn in setup and o["operator"] == "="
            elif o and o["type"] == "MemberExpression" and o["object"] is x and not o["computed"]:
                op = o["property"]["name"]
                ok = op in ("get", "has", "size", "keys", "values", "entries", "forEach") or op == "clear" and fn is None and call and call["type"] == "CallExpression" and nm in tables
            elif nm in counters:
                ok = not (o and (o["type"] == "UpdateExpression" or o["type"] == "AssignmentExpression" and o["left"] is x))
            ctx.require(ok, "timers-kept" if nm in tables else "fresh-ids", f"{nm}@{w.p.line(x['id'])}", f"{nm} is used outside of the timer functions in a way that can change other timers", w.p.line(x["id"]))
        for k, v in x.items():
            if k not in ("loc", "type") and isinstance(v, (dict, list)):
                go(v, fn, up + [x], script)
    from ..js import order
    setup = set(order())
    for s in w.p.scripts:
        if s.ast:
            go(s.ast, None, [], s)
    ctx.counts["other uses of the timer tables"] = n
