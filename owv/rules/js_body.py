"""P36: the bodies of requests and responses (embedded web API script)."""
from .. import js
from ..check import check, Missing

CONSUMERS = ("text", "json", "arrayBuffer", "formData", "blob", "bytes")
TAKES = ("getReader", "tee", "pipeTo", "pipeThrough", "cancel", "values", "asyncIterator")


def used_field(w, c):
    """the property that records that the body was used"""
    g = w.methods(c).get("get bodyUsed")
    if not g:
        return "bodyUsed"
    fs = set()
    for k, v, s in w.engine_for(None).run(g, ("this", c)):
        js.mentions(v, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[1] == ("this", c) and bool(fs.add(t[2])))
        fs |= {f[2] for f in s.facts if f[0] == "fld" and f[1] == ("this", c)}
    if len(fs) != 1:
        raise Missing("role:bodyUsed", f"cannot identify the field behind bodyUsed: {sorted(map(str, fs))}")
    return fs.pop()


class Rule:
    max_join = 6

    def __init__(self, ctx, w, used, root, streamfns):
        self.ctx, self.w, self.used, self.root, self.streamfns = ctx, w, used, root, streamfns
        self.relevant = frozenset({"bodyUsed", "body", "getReader", "tee", "pipeTo", "pipeThrough"} | set(used.values()))
        self.inside = None
        self.names = [w.engine.cname(c) for c in used]

    def uf(self, e, o):
        c = e.type_of(o)
        return self.used.get(c, "bodyUsed")

    def is_used(self, e, st, o):
        v = e.truth(st, e.read_prop(st, o, self.uf(e, o)))
        return v if v is not None or self.uf(e, o) == "bodyUsed" else e.truth(st, e.read_prop(st, o, "bodyUsed"))

    def marks(self, e, st, b, f):
        """f is the property behind bodyUsed of the object b"""
        return f == self.uf(e, b) or any(f == g and e.truth(st, ("inst", b, e.cname(c))) for c, g in self.used.items())

    def claimed(self, e, st, o):
        """the body was found unused and marked used, in either order, with nothing in between"""
        return ("claimed", o) in st.data or any(x[0] == "maybe" and x[1] == o and e.truth(st, x[2]) is False for x in st.data)

    def req(self, c, rule, msg, node, e):
        self.ctx.require(c, rule, self.root, f"{self.root}: {msg}", e.p.line(node["id"]))

    def owner(self, e, st, b):
        """whose body is this stream"""
        if b[0] == "old":
            b = b[1]
        o = b[1] if b[0] == "fld" and b[2] == "body" else next((k[0] for k, v in st.heap.items() if k[1] == "body" and v == b and v not in (js.NULL, js.UNDEF)), None)
        return o if o is not None and (e.type_of(o) in self.used or any(e.truth(st, ("inst", o, n)) for n in self.names)) else None

    def keep_fact(self, f):
        return js.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and (t[2] == "body" or t[2] in self.used.values() or t[2] == "bodyUsed")) \
            or f[0] == "inst"

    def bumps(self, e, st, callee, args):
        if isinstance(callee, tuple) and callee[0] == "fld" and callee[2] in self.streamfns.values() and self.owner(e, st, callee[1]) is not None:
            return False        # the stream's own methods do not reach the request
        return False if isinstance(callee, str) and (callee.startswith("__") or callee in ("JSON.parse", "JSON.stringify", "decodeURIComponent")) else None

    def event(self, e, st, kind, node, *a):
        if kind == "set":
            b, f, v = a
            if self.marks(e, st, b, f):
                fresh = b[0] == "obj" and isinstance(b[1], tuple)
                if v == js.TRUE:
                    if self.is_used(e, st, b) is False:
                        self.claim(st, b)
                    else:
                        t = ("maybe", b, e.read_prop(st, b, f))
                        if t not in st.data:
                            st.data += (t,)
                elif not fresh:
                    self.req(False, "used-stays-used", f"{js.show(b)}.{f} is set to {js.show(v)} after construction: a used body could be consumed again", node, e)
        elif kind in ("bump", "leave"):
            for o in self.roots:
                if self.is_used(e, st, o) is False and ("unused", o) not in st.data:
                    st.data += (("unused", o),)
                if e.truth(st, e.read_prop(st, o, "body")) is False and ("nobody", o) not in st.data:
                    st.data += (("nobody", o),)
        elif kind == "await":
            for x in st.data:
                if x[0] == "reading":
                    self.req(self.claimed(e, st, x[1]), "marked-before-data", "data of the body is awaited before the body is checked and marked as used", node, e)
        elif kind == "threw":
            f = a[0]
            if isinstance(f, tuple) and f[0] == "fld" and f[2] in TAKES:
                o = self.owner(e, st, f[1])
                st.data = tuple(x for x in st.data if x != ("reading", o))
        elif kind == "call":
            f = a[0]
            if isinstance(f, tuple) and f[0] == "fld" and f[2] in TAKES:
                self.take(e, st, f[2], f[1], node)
            else:
                # handed to other code
                for x in a[2]:
                    o = self.owner(e, st, x) if x[0] in ("fld", "obj", "typed") else None
                    if o is not None and f not in js.PURE_FN and not (isinstance(f, str) and f in ("String", "Boolean")):
                        self.take(e, st, "getReader", x, node)

    def claim(self, st, o):
        if ("claimed", o) not in st.data:
            st.data += (("claimed", o),)

    def take(self, e, st, name, b, node):
        o = self.owner(e, st, b)
        if o is None:
            return
        if name == "tee":
            self.req(self.is_used(e, st, o) is False or ("unused", o) in st.data or ("claimed", o) in st.data, "clone-unused-only", "the body is split although it may have been used", node, e)
        else:
            x = ("reading", o)
            if x not in st.data:
                st.data += (x,)

    def call(self, e, st, f, this, args, n, out):
        if f[0] == "fn" and f[1] in self.streamfns:
            name = self.streamfns[f[1]]
            site = (n["id"], e.callpath[-2:])
            v = js.cut(("call", name, (this,) + tuple(args), site))
            e.fresh(st, v)
            out.append(("throw", ("thrown", site), st.fork()))
            if name in TAKES:
                self.take(e, st, name, this, n)
            return [(st, v)]
        return None

    def construct(self, e, st, f, args, n, out):
        if f[0] == "class" and f in self.inside:
            # another body object: its constructor is judged on its own
            v = ("typed", js.cut(("new", e.cname(f), tuple(args), (n["id"], e.callpath[-2:]))), f)
            e.fresh(st, v)
            out.append(("throw", ("thrown", n["id"]), st.fork()))
            return [(st, v)]
        return None


def rejected(v, st):
    if v[0] == "obj" and v[1] == "Promise":
        v = st.heap.get((v, "$state"), v)
    return v[0] == "prom" and v[1] == "err"


@check("P36", "static analysis: path-sensitive dataflow over the embedded Request/Response classes with a use-once typestate for the body",
       "Scripts are single-threaded: between suspension points the state is not changed by others; the bodyUsed property is not overwritten by tenant code; streams themselves are judged by P38.")
def p36(ctx):
    """Every path of every public method of Request and Response is walked, helpers included. A path on which a consuming method returns normally, or on which the body is being read at a
    suspension point, must have established that the body was unused and marked it used with nothing in between; a path on which clone() returns must have established that it is unused
    (and splits nothing otherwise); the mark is never taken back; an object constructed around another one's body marks that one used."""
    w = js.world(ctx)
    classes = []
    for n in ("Request", "Response"):
        c = w.cls(n)
        if c is None:
            raise Missing(f"class:{n}", f"class {n} is not installed by the setup scripts")
        classes.append(c)
    used = {c: used_field(w, c) for c in classes}
    fns = {}
    for n in ("ReadableStream", "ReadableStreamDefaultReader", "ReadableStreamDefaultController"):
        c = w.cls(n)
        if c is None:
            raise Missing(f"class:{n}", f"class {n} is not installed by the setup scripts")
        fns |= {f[1]: k for k, f in w.methods(c).items() if not k.startswith("static ") and k != "constructor"}
        if n == "ReadableStream":
            sctor = w.methods(c)["constructor"][1]
    nm = consumers = takes = 0
    stream = w.cls("ReadableStream")
    for c in classes:
        cn = w.engine.cname(c)
        ms = w.methods(c)
        for k, f in sorted(ms.items(), key=lambda x: str(x[0])):
            if not isinstance(k, str) or k.split()[-1].startswith(("_", "#")):
                continue
            root = f"{cn}.{k}"
            rule = Rule(ctx, w, used, root, fns)
            rule.inside = {stream} | (set(classes) - {c} if k == "constructor" else set(classes))
            e = w.engine_for(rule)
            rule.roots = (("this", c),)
            th = ("obj", c, ("new",)) if k == "constructor" else ("class_this", c) if k.startswith("static ") else ("this", c)
            ex = js.explore(ctx, e, f, root, th if th[0] != "class_this" else c, None)
            nm += 1
            where = w.p.line(f[1])
            normal = [(v, s) for kind, v, s in ex if kind == "return" and not rejected(v, s)]
            for v, s in normal:
                claimed = rule.claimed(e, s, th)
                nobody = ("nobody", th) in s.data and ("reading", th) not in s.data
                facts = "; ".join(js.show(q, 4) + "=" + str(b) for q, b in list(s.facts.items())[:5])
                if k in CONSUMERS:
                    consumers += 1
                    ctx.require(claimed or nobody, "consumer-claims", root, f"{root} can succeed without having found the body unused and marked it used [{facts}]", where)
                elif k == "clone":
                    ctx.require(claimed or ("unused", th) in s.data, "clone-unused-only", root, f"{root} can succeed on a body that was used [{facts}]", where)
                for x in s.data:
                    if x[0] == "reading":
                        takes += 1
                        ctx.require(rule.claimed(e, s, x[1]), "marked-before-data", root, f"{root} reads the body of {js.show(x[1])} without marking it used [{facts}]", where)
                if k in ("constructor", "clone") or k.startswith("static "):
                    for b in [s.heap.get((th, "body"))] if k == "constructor" else []:
                        o = rule.owner(e, s, b) if b and b not in (js.NULL, js.UNDEF) and b[0] == "fld" else None
                        if o is not None and o != th:
                            ctx.require(rule.claimed(e, s, o), "taken-over-body", root, f"{root} takes over the body of {js.show(o)}, which is not checked and marked as used: both could consume it", where)
            if k in CONSUMERS or k == "clone":
                ctx.require(bool(normal), "can-succeed", root, f"{root} never succeeds", where)
    # everyone else leaves the mark alone or sets it
    names = set(used.values()) | {"bodyUsed"}
    own = {w.p.where[c[1]].fn for c in classes}
    for nd in w.p.nodes:
        if nd["type"] == "AssignmentExpression" and nd["left"]["type"] == "MemberExpression" and not nd["left"]["computed"] and nd["left"]["property"].get("name") in names \
                and w.p.where[nd["id"]].fn not in own:
            ctx.require(nd["right"].get("value") is True, "used-stays-used", "foreign", "the used mark of a body is reset outside its class", w.p.line(nd["id"]))
    ctx.floor("public body methods", nm, 12)
    ctx.floor("successful paths of consuming methods", consumers, 8)
