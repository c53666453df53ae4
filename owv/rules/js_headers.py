"""P37: the Headers class (embedded web API script)."""
from .. import js
from ..check import check, Missing

MUTATE = ("push", "pop", "shift", "unshift", "splice", "sort", "reverse", "fill")
KEYED = ("get", "has", "set", "delete")


def strip(t):
    """the value a string conversion is made of"""
    while True:
        if t[0] == "call" and t[1] in ("String", "toString", "trim") and t[2]:
            t = t[2][0]
        elif t[0] == "tmpl" and len(t[1]) == 1:
            t = t[1][0]
        elif t[0] == "op" and t[1] == "+" and ("c", "") in t[2:4]:
            t = t[3] if t[2] == ("c", "") else t[2]
        elif t[0] == "old":
            t = t[1]
        else:
            return t


def bare(t):
    """without version marks"""
    if isinstance(t, tuple) and t and t[0] == "old" and len(t) == 2:
        return bare(t[1])
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "call":
        return ("call", bare(t[1]) if isinstance(t[1], tuple) else t[1], tuple(bare(x) for x in t[2]))
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "fld":
        return ("fld", bare(t[1]), bare(t[2]) if isinstance(t[2], tuple) else t[2])
    if isinstance(t, tuple):
        return tuple(bare(x) if isinstance(x, tuple) else x for x in t)
    return t


def has(t, x):
    x = bare(x)
    return js.mentions(bare(t), lambda q: q == x)


class Rule:
    max_join = 40

    def __init__(self, ctx, w, H, store, root, gens):
        self.ctx, self.w, self.H, self.store, self.root, self.gens = ctx, w, H, store, root, gens
        self.shapes = ctx._p37shapes
        self.name = self.value = self.callback = None
        self.looped = False

    def req(self, c, rule, msg, node, e):
        self.ctx.require(c, rule, self.root, f"{self.root}: {msg}", e.p.line(node["id"] if isinstance(node, dict) else node))

    def bumps(self, e, st, callee, args):
        return False

    def throws(self, e, st, callee, args):
        return False

    def keep_fact(self, f):
        return True

    def is_store(self, e, st, b):
        return b[0] == "fld" and b[2] == self.store and e.type_of(b[1]) == self.H or any(v == b and k[1] == self.store for k, v in st.heap.items())

    def foreign_store(self, e, st, b):
        return b[0] == "fld" and b[2] == self.store and e.truth(st, ("inst", b[1], e.cname(self.H)))

    # collections that hold the entries: what their elements are
    def coll(self, e, st, c):
        c = c[1] if c[0] == "old" else c
        if self.is_store(e, st, c) or self.foreign_store(e, st, c):
            return "raw"
        if c[0] == "call" and c[1] in ("entries", "keys", "values") and c[2] and (self.is_store(e, st, c[2][0]) or self.foreign_store(e, st, c[2][0])):
            return {"entries": "raw", "keys": "rawkeys", "values": "rawvalues"}[c[1]]
        if c[0] == "call" and isinstance(c[1], tuple) and c[1][0] == "fn" and c[1][1] in self.gens and c[2] and e.type_of(c[2][0]) == self.H:
            return self.gens[c[1][1]]
        if c[0] in ("this",) and e.type_of(c) == self.H:
            return "pairs"
        if c[0] == "spread":
            return self.coll(e, st, c[1])
        if c[0] == "obj" and c[1] == "Array" and (c, "$items") in st.heap and len(st.heap[(c, "$items")]) == 1 and st.heap[(c, "$items")][0][0] == "spread":
            return self.coll(e, st, st.heap[(c, "$items")][0][1])
        if c[0] == "call" and c[1] in ("Array.from", "slice") and c[2]:
            return self.coll(e, st, c[2][0])
        return None

    def source(self, e, st, k):
        """(normalised?, what the name is)"""
        k = k[1] if k[0] == "old" else k
        if k[0] == "c":
            return isinstance(k[1], str) and k[1] == k[1].lower(), k
        if k[0] == "call" and k[1] == "toLowerCase":
            self.shapes.setdefault(self.shape(k), self.root)
            return True, strip(k[2][0])
        if self.own_key(e, st, k):
            return True, k
        if k[0] == "call" and k[1] == "trim" and k[2]:
            ok, s = self.source(e, st, k[2][0])
            self.shapes.setdefault(self.shape(k), self.root)
            return ok, s
        return False, k

    def shape(self, k):
        """the normalising steps that change the key, without the conversion to a string"""
        out = []
        while k[0] in ("call", "old", "tmpl"):
            if k[0] == "call" and k[1] in ("toLowerCase", "trim"):
                out.append(k[1])
            if k[0] == "call" and k[1] not in ("toLowerCase", "trim", "String", "toString"):
                break
            k = k[2][0] if k[0] == "call" else k[1] if k[0] == "old" else k[1][0]
        return tuple(sorted(out))

    def own_key(self, e, st, k):
        """a key that comes out of a store"""
        if k[0] == "fld" and k[2] in (("c", 0), 0, "0") and k[1][0] in ("elem", "old"):
            x = k[1] if k[1][0] == "elem" else k[1][1]
            return x[0] == "elem" and self.coll(e, st, x[1]) in ("raw", "pairs")
        return k[0] == "elem" and self.coll(e, st, k[1]) in ("rawkeys", "pairkeys")

    def keyed(self, e, st, k, args, n):
        key = args[0] if args else js.UNDEF
        ok, src = self.source(e, st, key)
        self.req(ok, "key-normalised", f"{k}() on the stored headers with a key that is not in normalised form: {js.show(key)}", n, e)
        if ok and self.name is not None and src[0] != "c" and not self.own_key(e, st, src):
            self.req(bare(src) == bare(self.name), "key-is-the-name", f"{k}() on the stored headers with {js.show(src)} instead of the given name", n, e)
        return src

    def wrote(self, st, x):
        if self.name is not None:
            self.drop(st, lambda y: y[0] == "wrote")
            st.data += (x,)

    def add(self, st, x):
        if x not in st.data:
            st.data += (x,)

    def drop(self, st, f):
        st.data = tuple(x for x in st.data if not f(x))

    def stored(self, e, st, v, src=None):
        """the value v was put under the key of src"""
        def done(x):
            if x[0] != "item":
                return False
            return has(v, x[1]) and (src is None or has(src, x[1]) or self.name is not None)
        self.drop(st, done)

    def emitted(self, e, st, v, node, whole):
        """something is handed to the caller of an iteration"""
        def done(x):
            if x[0] != "item":
                return False
            el, kind = x[1], x[2]
            if kind == "inner":
                return has(v, el) or self.wants == (True, False) and any(y[0] == "item" and y[2] == "raw" and self.fldhas(v, y[1], 0) for y in st.data)
            want_k, want_v = self.wants
            ks = ("fld", el, ("c", 0)) if kind in ("raw", "pairs") else el
            vs = ("fld", el, ("c", 1)) if kind in ("raw", "pairs") else el
            if kind == "foreach":
                return True
            got_k = has(v, ks) or self.fldhas(v, el, 0) or kind in ("rawkeys", "pairkeys") and has(v, el)
            got_v = any(self.isval(strip(bare(p)), el, vs, kind) for p in (v[1:] if v[0] == "arr" else (v,)))
            return (got_k or not want_k) and (got_v or not want_v)
        self.drop(st, done)

    def isval(self, p, el, vs, kind):
        """the piece is the whole value of the element"""
        el = bare(el)
        return p == bare(vs) or p == el or p[0] == "fld" and len(p) == 3 and p[1] == el and p[2] in (1, "1", ("c", 1)) and kind not in ("rawvalues", "pairvalues")

    def fldhas(self, v, el, i):
        el = bare(el)
        return js.mentions(bare(v), lambda q: isinstance(q, tuple) and len(q) == 3 and q[0] == "fld" and q[1] == el and q[2] in (i, str(i), ("c", i)))

    def flat(self, st, v):
        """object contents written out"""
        if v[0] == "obj" and v[1] == "Array" and (v, "$items") in st.heap:
            return ("arr",) + tuple(self.flat(st, x) for x in st.heap[(v, "$items")])
        if v[0] == "call" and v[1] == "concat" and len(v[2]) >= 1:
            return ("arr", ("spread", v[2][0])) + tuple(y for x in v[2][1:] for y in (self.flat(st, x)[1:] if self.flat(st, x)[0] == "arr" else (x,)))
        return v

    def event(self, e, st, kind, node, *a):
        if kind == "mcall":
            b, k, args = a
            if self.is_store(e, st, b) and k in KEYED:
                src = self.keyed(e, st, k, args, node)
                if k == "set":
                    v = self.flat(st, args[1]) if len(args) > 1 else js.UNDEF
                    if self.root.endswith("constructor"):
                        raw = any(x[0] == "item" and x[2] == "raw" and has(src, x[1]) for x in st.data)
                        self.req(raw or self.present(e, st, b, args[0]) is False or keeps(v, self, e, st), "append-keeps", "an entry of the initialiser replaces an earlier one of the same name", node, e)
                    if js.mentions(v, lambda q: isinstance(q, tuple) and q[:1] == ("elem",)) and self.root.endswith("constructor") and any(x[0] == "item" and x[2] in ("raw",) and self.valterm(e, st, x) == strip(v) for x in st.data):
                        self.ctx._p37shared = True
                    self.stored(e, st, v, src)
                    self.wrote(st, ("wrote", bare(src), self.present(e, st, b, args[0]), v))
                elif k == "delete":
                    self.add(st, ("deleted", bare(src)))
            elif self.is_store(e, st, b) and k == "clear":
                self.req(False, "clears", "all headers are dropped", node, e)
            elif k == "push" and b[0] in ("call", "old", "joined"):
                x = b if b[0] == "call" else b[1]
                if x[0] == "call" and x[1] == "get" and self.is_store(e, st, x[2][0]):
                    v = ("arr", ("spread", x)) + tuple(args)
                    self.ctx._p37pushed = self.root
                    self.stored(e, st, v)
                    ok, src = self.source(e, st, x[2][1])
                    self.wrote(st, ("wrote", bare(src), True, v))
            elif k in MUTATE and k != "push" and (b[0] == "call" and b[1] == "get" and b[2] and self.is_store(e, st, b[2][0])):
                self.req(False, "values-kept", f"{k}() changes the stored values of a header", node, e)
        elif kind == "set" and a[1] == self.store and e.type_of(a[0]) == self.H:
            if a[2][0] == "new" and a[2][1] == "Map" and a[2][2] or a[2][0] == "obj" and any(self.coll(e, st, x) or self.foreign_store(e, st, x) for x in st.heap.get((a[2], "$args"), ())):
                self.ctx._p37shared = True
            elif self.foreign_store(e, st, a[2]):
                self.req(False, "own-store", "two Headers objects share one store", node, e)
        elif kind in ("elem", "loopend"):
            c = a[0]
            ck = self.coll(e, st, c)
            init = self.root.endswith("constructor") and ck is None
            if ck or init:
                self.looped = True
                el = a[1] if kind == "elem" else None
                left = [x for x in st.data if x[0] == "item" and x[2] != "inner" and x[3] == node["id"]]
                self.req(not left, "nothing-skipped", f"an entry is passed over: {[js.show(x[1]) for x in left]} {[js.show(x) + '=' + str(y) for x, y in st.facts.items()]}", node, e)
                self.drop(st, lambda x: x[0] == "item" and x[3] == node["id"])
                if el is not None and (self.wants or self.root.endswith("constructor")):
                    self.add(st, ("item", el, ck or "init", node["id"]))
            else:
                # the values of one multi-valued entry, one by one
                cc = bare(c)
                while cc[0] in ("call", "spread") and (cc[0] == "spread" or cc[1] in ("slice", "Array.from", "values", "concat") and len(cc[2]) == 1):
                    cc = cc[1] if cc[0] == "spread" else cc[2][0]
                if cc[0] in ("new", "obj") or cc[0] == "call" and cc[1] not in ("get",):
                    return
                outer = [x for x in st.data if x[0] == "item" and x[2] in ("raw", "rawvalues") and has(cc, x[1])]
                if outer:
                    left = [x for x in st.data if x[0] == "item" and x[2] == "inner"]
                    self.req(not left, "nothing-skipped", "a value of a multi-valued header is passed over", node, e)
                    self.drop(st, lambda x: x[0] == "item" and x[2] == "inner")
                    if kind == "elem":
                        self.add(st, ("item", a[1], "inner", node["id"]))
                    else:
                        self.drop(st, lambda x: x in outer)
        elif kind in ("yield", "yield*"):
            v = self.flat(st, a[0])
            if kind == "yield*":
                ck = self.coll(e, st, a[0])
                if ck in ("raw", "rawvalues") or ck == "rawkeys" and False:
                    self.req(False, "values-separate", "multi-valued headers are handed out as lists", node, e)
                if ck:
                    w = {"pairs": (True, True), "pairkeys": (True, False), "pairvalues": (False, True)}.get(ck)
                    self.req(w == self.wants, "iterates-all", "the wrong parts of the entries are handed out", node, e)
                    self.add(st, ("delegated",))
            else:
                self.single(e, st, v, node)
            self.emitted(e, st, v, node, True)
        elif kind == "looptest" and self.wants == (True, False):
            # one key per value: a loop that counts up to the number of values
            v = bare(a[0])
            init = node.get("init")
            zero = init and init["type"] == "VariableDeclaration" and all((d.get("init") or {}).get("value") == 0 for d in init["declarations"] if d["id_"].get("name") == (v[2][2] if v[0] == "op" and v[2][0] == "counter" else None))
            if zero and v[0] == "op" and v[1] == "<" and v[2][0] == "counter" and v[3][0] == "fld" and v[3][2] == "length":
                self.drop(st, lambda x: x[0] == "item" and x[2] == "raw" and self.fldhas(v[3][1], x[1], 1))
        elif kind == "call":
            f, this, args = a[:3]
            if self.callback is not None and (f == self.callback or isinstance(f, tuple) and f[0] == "fld" and f[1] == self.callback or this == self.callback):
                v = ("arr",) + tuple(self.flat(st, x) for x in args)
                self.single(e, st, v, node)
                self.emitted(e, st, v, node, True)

    def single(self, e, st, v, node):
        """a multi-valued entry is not handed out as one value"""
        for x in st.data:
            if x[0] == "item" and x[2] in ("raw", "rawvalues") and self.wants and self.wants[1]:
                val = self.valterm(e, st, x)
                if val not in [strip(q) for q in (v[1:] if v[0] == "arr" else (v,))]:
                    continue
                self.req(any(e.truth(st, ("call", "Array.isArray", (t,), "any")) is False or e.truth(st, ("op", "===", ("typeof", t), ("c", "string"))) is True for t in [val]),
                         "values-separate", "the values of a multi-valued header may be handed out as one list", node, e)

    def valterm(self, e, st, x):
        return e.read_prop(st, x[1], 1) if False else (x[1] if x[2] == "rawvalues" else next((t for t in self.reads(st, x[1], 1)), e.read_prop(st, x[1], ("c", 1))))

    def reads(self, st, el, i):
        out = []
        for v in list(st.vars.values()):
            js.mentions(v, lambda q: isinstance(q, tuple) and len(q) == 4 and q[0] == "fld" and q[1] == el and q[2] in (i, str(i), ("c", i)) and bool(out.append(q)))
        return out

    def present(self, e, st, b, key):
        """is the name known to be stored: True/False/None"""
        for f, v in st.facts.items():
            g = bare(f)
            if g[0] == "call" and g[1] == "has" and len(g[2]) == 2 and bare(key) == g[2][1]:
                return v
            if g[0] == "op" and g[1] == "===" and g[3] == js.UNDEF and g[2][0] == "call" and g[2][1] == "get" and g[2][2][1] == bare(key):
                return not v
            if g[0] == "nullish" and g[1][0] == "call" and g[1][1] == "get" and g[1][2][1] == bare(key):
                return not v
        for f, v in st.facts.items():
            g = bare(f)
            if v is True and g[0] == "call" and g[1] == "get" and g[2][1] == bare(key):
                return True
            if v is True and g[0] == "call" and g[1] == "Array.isArray" and g[2][0][0] == "call" and g[2][0][1] == "get" and g[2][0][2][1] == bare(key):
                return True
        return None


def roles(w):
    H = w.cls("Headers")
    if H is None:
        raise Missing("class:Headers", "class Headers is not installed by the setup scripts")
    ctor = w.methods(H).get("constructor")
    o, fs = ("obj", H, ("new",)), set()

    class Init:
        relevant = frozenset()

        def event(self, e, st, kind, node, *a):
            if kind == "set" and a[0] == o and (a[2][0] == "obj" and a[2][1] == "Map" or a[2][0] == "new" and a[2][1] == "Map"):
                fs.add(a[1])

        def throws(self, *a):
            return False

        def bumps(self, *a):
            return False
    if ctor:
        w.engine_for(Init()).run(ctor, o, [js.UNDEF])
    for k, v in w.base.heap.items():
        pass
    if len(fs) != 1:
        raise Missing("role:store", f"cannot identify the map that holds the headers: {sorted(map(str, fs))}")
    return H, fs.pop()


@check("P37", "static analysis: path-sensitive dataflow over the embedded Headers class (provenance of every key, obligations for every entry)",
       "The private store of a Headers object is not written by tenant code; names convert to strings without side effects on the object.")
def p37(ctx):
    """Every path of every public method of Headers is walked, helpers included. Each look-up, store and removal uses a key that provably went through the same normalisation (lower case)
    of the name given to that operation, or that came out of the store; get/has answer according to the store, set replaces, append keeps what is there, delete removes, and each
    iteration hands out every stored entry, multi-valued ones value by value; a Headers object built from another one, a list or an object takes over every entry."""
    w = js.world(ctx)
    H, store = roles(w)
    ctx._p37shapes = {}
    ctx._p37shared = ctx._p37pushed = None
    ms = w.methods(H)
    gens = {}
    for k, kind in (("entries", "pairs"), ("@@iterator", "pairs"), ("keys", "pairkeys"), ("values", "pairvalues")):
        if k in ms:
            gens[ms[k][1]] = kind
    for k in ("append", "delete", "get", "has", "set", "entries", "keys", "values", "forEach", "@@iterator"):
        if k not in ms:
            raise Missing(f"Headers.{k}", f"Headers has no {k}")
    n = 0
    for k, f in sorted(ms.items(), key=lambda x: str(x[0])):
        if k.startswith(("_", "#", "static ")):
            continue
        n += 1
        root = f"Headers.{k}"
        rule = Rule(ctx, w, H, store, root, gens)
        params = w.p.nodes[f[1]]["params"]
        rule.wants = {"entries": (True, True), "@@iterator": (True, True), "keys": (True, False), "values": (False, True), "forEach": (True, True)}.get(k)
        if k in ("append", "delete", "get", "has", "set"):
            if not params:
                raise Missing(f"{root}:params", f"{root} takes no name")
            rule.name = ("arg", w.engine.pname(params[0], 0))
        if k == "forEach":
            rule.callback = ("arg", w.engine.pname(params[0], 0))
        e = w.engine_for(rule)
        th = ("obj", H, ("new",)) if k == "constructor" else ("this", H)
        ex = js.explore(ctx, e, f, root, th)
        where = w.p.line(f[1])
        value = ("arg", w.engine.pname(params[1], 1)) if len(params) > 1 else None
        normal = [(v, s) for kind, v, s in ex if kind == "return"]
        ctx.require(bool(normal), "can-succeed", root, f"{root} never succeeds", where)
        for v, s in normal:
            facts = "; ".join(js.show(q, 4) + "=" + str(b) for q, b in list(s.facts.items())[:5])

            def req(c, r, msg):
                ctx.require(c, r, root, f"{root}: {msg} [{facts}]", where)
            wrote = [x for x in s.data if x[0] == "wrote"]
            if rule.name is not None:
                for q in s.facts:
                    req(not spelled(bare(q), rule.name), "spelling-decides", f"the outcome depends on how the name is spelled: {js.show(q)}")
            if k == "delete":
                req(("deleted", bare(rule.name)) in s.data, "delete-removes", "the name may stay stored")
            elif k == "set":
                req(len(wrote) >= 1 and strip(wrote[-1][3]) == value, "set-replaces", f"set stores {js.show(wrote[-1][3]) if wrote else 'nothing'} instead of the given value")
            elif k == "append":
                ok = bool(wrote)
                for x in wrote[-1:]:
                    new, old = has(x[3], value), any(has(x[3], ("call", "get", (q,))) for q in ()) or keeps(x[3], rule, e, s)
                    ok = new and (old or x[2] is False)
                req(ok, "append-keeps", f"append stores {js.show(wrote[-1][3]) if wrote else 'nothing'}: what was stored under the name before, or the new value, is lost")
            elif k == "has":
                g = bare(v)
                p = rule.present(e, s, None, keyterm(v, s))
                ok = g[0] == "call" and g[1] == "has" or g[0] == "op" and g[1] in ("!==", "!=") and g[3] in (js.UNDEF, js.NULL) and g[2][0] == "call" and g[2][1] == "get" \
                    or v[0] == "b" and any(rule.present(e, s, None, q) is v[1] for q in keys_in(s))
                req(ok, "has-answers", f"has() answers {js.show(v)}")
            elif k == "get":
                g = [q for q in gets_in(v)]
                if any(b is True and not_first(bare(q)) and not (bare(q)[0] == "nullish") or b is True and bare(q)[0] == "nullish" and not_first(bare(q)) for q, b in s.facts.items()):
                    continue        # a stored list has at least two values, all of them strings
                if v == js.NULL or v == js.UNDEF:
                    req(v == js.NULL and any(rule.present(e, s, None, q) is False for q in keys_in(s)), "get-answers", "get() answers that there is no such header although there may be one")
                else:
                    req(bool(g) or v[0] == "op" and v[1] == "??", "get-answers", f"get() answers {js.show(v)} instead of the stored value")
            elif k == "getSetCookie":
                vv = rule.flat(s, v)
                if not gets_in(vv):
                    req(any(rule.present(e, s, None, q) is False for q in keys_in(s)), "get-answers", "getSetCookie() answers that there is no cookie although there may be one")
            elif k in ("entries", "keys", "values", "forEach"):
                left = [x for x in s.data if x[0] == "item"]
                req(not left, "nothing-skipped", "an entry is passed over")
            elif k == "@@iterator":
                left = [x for x in s.data if x[0] == "item"]
                req(not left and (rule.coll(e, s, v) == "pairs" or w.p.nodes[f[1]].get("generator")), "iterates-all", f"iteration is {js.show(v)}")
            elif k == "constructor":
                left = [x for x in s.data if x[0] == "item"]
                req(not left, "nothing-skipped", "an entry of the initialiser is not taken over")
        if k in ("entries", "keys", "values", "forEach"):
            ctx.require(any("delegated" in [x[0] for x in s.data] for v, s in normal) or rule.looped, "iterates-all", root, f"{root} does not go over the stored headers", where)
    ctx.require(not (ctx._p37shared and ctx._p37pushed), "own-values", "all", f"a Headers object takes over another one's lists of values, and {ctx._p37pushed} changes such lists in place", "")
    ctx.require(len(ctx._p37shapes) == 1, "one-normal-form", "all", f"names are normalised in different ways: {ctx._p37shapes}", "")
    ctx.floor("public header operations", n, 11)


def not_first(q):
    """the first value of a stored list is undefined"""
    t = q[1] if q[0] == "nullish" else q[2] if q[0] == "op" and q[1] == "===" and q[3] in (js.UNDEF, js.NULL) else None
    return t is not None and t[0] == "fld" and t[2] in (("c", 0), 0, "0") and t[1][0] == "call" and t[1][1] == "get"


def spelled(q, name):
    """a decision on the given name as it is spelled"""
    if q == name or not isinstance(q, tuple) or not q or q[0] in ("typeof", "nullish", "inst"):
        return False
    if q[0] == "call" and q[1] == "toLowerCase":
        return False
    if q[0] == "op" and q[1] in ("===", "==") and any(strip(x) == name for x in q[2:4]):
        return not any(x in (js.UNDEF, js.NULL, ("c", "")) for x in q[2:4])
    if q[0] == "call" and not isinstance(q[1], tuple) and q[1] not in ("String", "toString", "trim", "get", "has") and any(isinstance(x, tuple) and strip(x) == name for x in q[2]):
        return True
    return any(spelled(x, name) for x in q if isinstance(x, tuple))


def gets_in(v):
    out = []
    js.mentions(v, lambda q: isinstance(q, tuple) and len(q) == 4 and q[0] == "call" and q[1] == "get" and bool(out.append(q)))
    return out


def keys_in(s):
    out = []
    for f in s.facts:
        js.mentions(f, lambda q: isinstance(q, tuple) and len(q) == 4 and q[0] == "call" and q[1] in ("get", "has") and len(q[2]) > 1 and bool(out.append(q[2][1])))
    return out


def keyterm(v, s):
    k = keys_in(s)
    return k[0] if k else v


def keeps(v, rule, e, s):
    """the stored value is part of the new one"""
    return any(q[2] and rule.is_store(e, s, q[2][0]) for q in gets_in(v))
