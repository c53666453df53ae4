"""P26: the pump that hands the chunks of a streamed response to the host (embedded script), and the natives and tasks behind it."""
import re

from .. import flow, js
from ..check import check, Missing
from ..rlib import *
from . import js_glue, registry as R
from .registry import deref

RESP, SID, NATIVE = ("arg", "response"), ("arg", "stream id"), ("arg", "native stream id")
READER, CHUNK = ("arg", "reader"), ("arg", "chunk")
COUNT, LAST = "__activeResponseStreams", "__lastResponseStreamId"
CREATE, WRITE, CLOSED, END, ERROR = ("__responseStream" + x for x in ("Create", "Write", "IsClosed", "End", "Error"))
KINDS = ("undefined", "null", "string", "Uint8Array", "view", "ArrayBuffer", "other")
COUNT0 = ("arg", "count")


class Pump:
    """one call of the function, for every body, every consumer and every outcome of the natives"""
    max_join = None

    def __init__(self, ctx, w, what):
        self.ctx, self.w, self.what = ctx, w, what
        self.logs, self.fixed = set(js_glue.logging(w).values()), None
        self.resp = w.cls("Response")
        enc = w.cls("TextEncoder")
        self.enc = enc
        self.encode = w.methods(enc).get("encode") if enc else None

    def req(self, c, rule, msg, node, e):
        self.ctx.require(c, rule, self.what, f"{self.what}: {msg}", e.p.line(node["id"]) if node else None)

    def add(self, st, *x):
        if x not in st.data:
            st.data = tuple(sorted(st.data + (x,), key=repr))

    def drop(self, st, *ks):
        st.data = tuple(x for x in st.data if x[0] not in ks)

    def has(self, st, k):
        return any(x[0] == k for x in st.data)

    def val(self, st, k):
        return next((x[1] for x in st.data if x[0] == k), None)

    # ---- what the engine asks
    def keep_fact(self, f):
        return js.mentions(f, lambda t: t in (RESP, CHUNK, READER))

    def survives(self, e, st, b, f, v):
        return b == js.G and f in (COUNT, LAST) or b in (RESP, READER) or b[0] == "obj" and b[1] in ("Promise", "Read") or b[0] == "fld" and b[1] == RESP

    def nullable(self, e, st, v):
        return v[0] in ("res", "rej", "thrown")

    def throws(self, e, st, callee, args):
        return False if isinstance(callee, str) and callee.startswith("__") or callee == "setTimeout" else None

    def bumps(self, e, st, callee, args):
        return False if callee == "setTimeout" else None

    def hostile(self, e, st, v):
        return v[0] in ("thrown", "rej") or v == CHUNK and self.val(st, "kind") == "other"

    def settles(self, e, st, v, n, out):
        if v[0] == "call" and v[1] == ("fld", READER, "read") or v[0] == "obj" and v[1] == "Promise" and st.heap.get((v, "$read")):
            return self.read(e, st, v, n)
        if v[0] == "obj" and v[1] == "Promise" and (v, "$state") not in st.heap:
            return [(st, True, js.UNDEF)]
        return None

    def read(self, e, st, v, n):
        self.taken(e, st, n, "another is read")
        res = []
        r = ("obj", "Read", n["id"])
        for k in KINDS:
            s = st.fork()
            e.fresh(s, CHUNK)
            self.drop(s, "chunk", "kind", "sent", "empty")
            self.add(s, "kind", k)
            self.add(s, "chunk", CHUNK)
            for f in [f for f in s.facts if js.mentions(f, lambda t: t == CHUNK)]:
                del s.facts[f]
            val = {"undefined": js.UNDEF, "null": js.NULL}.get(k, CHUNK)
            A = lambda t, b: e.assume(s, t, b)
            ty = lambda t: ("op", "===", ("typeof", CHUNK), ("c", t))
            view = ("call", "ArrayBuffer.isView", (CHUNK,), "any")
            if val == CHUNK:
                A(("nullish", CHUNK), False)
                A(ty("string"), k == "string")
                A(view, k in ("Uint8Array", "view"))
                A(("inst", CHUNK, "Uint8Array"), k == "Uint8Array")
                A(("inst", CHUNK, "ArrayBuffer"), k == "ArrayBuffer")
                A(("inst", CHUNK, "DataView"), False) if k != "view" else None
                if k in ("Uint8Array", "view", "ArrayBuffer"):
                    A(ty("object"), True)
                    A(CHUNK, True)
            s.heap[(r, "done")], s.heap[(r, "value")] = js.FALSE, val
            res.append((s, True, r))
        d = st.fork()
        self.drop(d, "chunk", "kind", "sent", "empty")
        self.add(d, "done")
        d.heap[(r, "done")], d.heap[(r, "value")] = js.TRUE, js.UNDEF
        f = st.fork()
        self.drop(f, "chunk", "kind", "sent", "empty")
        self.add(f, "failed")
        return res + [(d, True, r), (f, False, ("rej", "read"))]

    def empty(self, e, st):
        if self.val(st, "kind") in ("undefined", "null"):
            return True
        for f, v in st.facts.items():
            ls = set()
            js.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[2] in ("length", "byteLength") and self.conv(st, t[1]) and ls.add(t) is not None)
            for l in ls:
                if any(e.truth(st, t) is w for t, w in ((("op", "===", l, ("c", 0)), True), (("op", ">", l, ("c", 0)), False), (("op", "<=", l, ("c", 0)), True), (l, False))):
                    return True
        return e.truth(st, CHUNK) is False and self.val(st, "kind") == "string"

    def taken(self, e, st, n, then):
        """the chunk that was read last is through"""
        if not self.has(st, "chunk") or self.has(st, "sent") or self.has(st, "closed"):
            return
        self.req(self.has(st, "empty") or self.empty(e, st), "every-chunk-written", f"a chunk ({self.val(st, 'kind')}) is not written before {then}", n, e)

    def conv(self, st, t):
        """is this what the chunk consists of"""
        k = self.val(st, "kind")
        if t == CHUNK:
            return k == "Uint8Array"
        s = lambda x: x == CHUNK and k in ("string", "other") or x[0] == "call" and x[1] == "String" and x[2] == (CHUNK,) and k in ("string", "other") \
            or x[0] == "tmpl" and CHUNK in x and k in ("string", "other")
        if t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][1] == CHUNK and t[1][2] in ("slice", "subarray") and not t[2]:
            return k == "Uint8Array"
        if t[0] == "call" and t[1] == "Uint8Array.from":
            return t[2] == (CHUNK,) and k == "Uint8Array"
        if t[0] == "new" and t[1] == "Uint8Array":
            a = t[2]
            if len(a) == 1 and a[0][:2] == ("call", "encode"):
                return s(a[0][2][0])
            if a == (CHUNK,):
                return k in ("Uint8Array", "ArrayBuffer")
            fl = lambda x, p: x[0] == "fld" and x[1] == CHUNK and x[2] == p
            return len(a) == 3 and k in ("Uint8Array", "view") and fl(a[0], "buffer") and fl(a[1], "byteOffset") and fl(a[2], "byteLength") \
                or len(a) == 3 and k == "Uint8Array" and fl(a[0], "buffer") and fl(a[1], "byteOffset") and fl(a[2], "length")
        return False

    def native(self, e, st, name, args, n):
        sid = args[0] if args else js.UNDEF
        if name == CREATE:
            self.req(not self.has(st, "created"), "one-stream", "more than one stream is made for a response", n, e)
            self.add(st, "created")
            return [(st, SID)]
        self.req(self.has(st, "created") and sid == SID, "own-stream", f"{name} is given {js.show(sid)}, not the stream of this response", n, e)
        if self.has(st, "spin") and self.val(st, "spin") == name:
            self.req(False, "retry-waits", f"{name} is tried again at once when the buffer is full: nobody can empty it meanwhile", n, e)
        no, yes = st, st.fork()
        if name == CLOSED:
            if self.has(st, "closed"):
                return [(st, js.TRUE)]
            if self.has(st, "ended"):
                return [(st, ("b", True)), (yes, ("b", False))]
            self.add(yes, "closed")
            self.drop(yes, "spin")
            return [(yes, js.TRUE), (no, js.FALSE)]
        self.drop(no, "spin")
        self.add(no, "spin", name)
        if self.has(st, "closed"):
            self.drop(no, "spin")
            return [(no, js.FALSE)]
        self.req(not self.has(st, "ended"), "ended-once" if name != WRITE else "end-is-last", f"{name} is called after the end of the stream", n, e)
        if name == WRITE:
            c = args[1] if len(args) > 1 else js.UNDEF
            self.req(self.has(st, "chunk") and not self.has(st, "sent"), "written-once", "something is written that is not the chunk just read, or is written twice", n, e)
            self.req(self.conv(st, c), "bytes-of-the-chunk", f"for a chunk of kind {self.val(st, 'kind')}, {js.show(c)} is written", n, e)
            self.add(yes, "sent")
        elif name == END:
            self.req(not self.has(st, "failed"), "failure-not-complete", "a body that failed is ended as if it were complete", n, e)
            self.req(self.has(st, "done") or self.has(st, "failed"), "complete-before-end", "the stream is ended as complete before the body is at its end", n, e)
            self.taken(e, st, n, "the end is written")
            self.add(yes, "ended", "end")
        else:
            self.req(not self.has(st, "done") or self.has(st, "failed"), "complete-is-complete", "a complete body is reported as failed", n, e)
            self.add(yes, "ended", "error")
        self.drop(yes, "spin")
        return [(yes, js.TRUE), (no, js.FALSE)]

    def call(self, e, st, f, this, args, n, out):
        if f[0] == "global" and f[1] in (CREATE, WRITE, CLOSED, END, ERROR):
            return self.native(e, st, f[1], args, n)
        if f in self.logs:
            return [(st, js.UNDEF)]
        if self.encode and f == self.encode:
            a = args[0] if args else js.UNDEF
            if a == CHUNK and self.val(st, "kind") == "other":
                e.hostile(st, a, n, out)
            return [(st, ("new", "Uint8Array", (("call", "encode", (a,), "any"),), n["id"]))]
        if f == ("global", "String") and args:
            e.hostile(st, args[0], n, out)
            return [(st, ("call", "String", (args[0] if args[0] == CHUNK else ("arg", "reason"),), "any"))]
        if f[0] == "fld" and f[2] == "getReader" and f[1][0] == "fld" and f[1][1] == RESP and f[1][2] == "body":
            self.req(not self.has(st, "reader"), "one-reader", "the body is locked twice", n, e)
            bad = st.fork()
            self.add(bad, "failed")
            self.add(bad, "noreader")
            out.append(("throw", ("thrown", "getReader"), bad))
            self.add(st, "reader")
            e.assume(st, READER, True)
            return [(st, READER)]
        if f[0] == "fld" and f[1] == READER:
            if f[2] == "read":
                self.req(not self.has(st, "closed"), "stops-when-gone", "the body is read on although the consumer is gone", n, e)
                if self.has(st, "created"):
                    self.counted(e, st, n)
                return [(st, ("call", ("fld", READER, "read"), (), n["id"]))]
            if f[2] == "cancel":
                self.add(st, "cancelled")
                return [(st, ("call", "cancel", (), n["id"]))]
            if f[2] in ("releaseLock",):
                return [(st, js.UNDEF)]
            if f[2] == "closed":
                return None
        if f == ("global", "setTimeout"):
            return [(st, ("call", "timer", (), n["id"]))]
        return None

    def construct(self, e, st, f, args, n, out):
        if f == self.enc:
            return [(st, ("typed", ("new", "TextEncoder", (), n["id"]), f))]
        return None

    def type_of(self, e, t):
        return self.resp if t == RESP else None

    def method(self, e, st, b, k, f, args, n, out):
        return None

    def counted(self, e, st, n):
        c = st.heap.get((js.G, COUNT))
        if not self.has(st, "counted"):
            self.req(c == plus(1), "counted-while-open", f"while the body is read the number of active streams is {js.show(c) if c else '?'}, not one more than before", n, e)

    def event(self, e, st, kind, node, *a):
        if kind == "await":
            if self.has(st, "created") and not self.has(st, "ended") and not self.has(st, "closed"):
                self.counted(e, st, node)
        elif kind == "resume":
            self.drop(st, "spin")
        elif kind == "test":
            if self.has(st, "chunk") and not self.has(st, "sent") and not self.has(st, "empty") and self.empty(e, st):
                self.add(st, "empty")
        elif kind == "threw" or kind == "looked" and a[0] == CHUNK:
            if self.has(st, "created") and not self.has(st, "done") and not self.has(st, "ended"):
                self.add(st, "failed")

    def end(self, e, kind, v, st, fn):
        node = e.p.nodes[fn[1]]
        if v[0] == "obj" and v[1] == "Promise":
            v = st.heap.get((v, "$state"), v)
        bad = kind == "throw" or v[0] == "prom" and v[1] == "err"
        if v[0] == "prom":
            v = v[2]
        sid = st.heap.get((RESP, "_responseStreamId"))
        g = lambda x: st.heap.get((js.G, x))
        if not self.has(st, "created"):
            self.req(not self.has(st, "reader"), "read-into-stream", "the body is read although no stream was made for it", node, e)
            if bad:
                return
            self.req(v == RESP, "response-returned", f"the result is {js.show(v)}, not the response", node, e)
            body = e.read_prop(st, RESP, "body")
            nat = [f for f, val in st.facts.items() if js.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[1] == body and t[2] == "_nativeStreamId")]
            nid = e.read_prop(st, body, "_nativeStreamId")
            if e.truth(st, body) is False:
                return
            if sid is not None:
                self.req(sid == nid, "native-id", f"the response is given the stream id {js.show(sid)}, not that of its native body", node, e)
                self.req(g(LAST) == nid, "native-id", "the stream of the response is not recorded for the cancellation", node, e)
                return
            own = [f for f, val in st.facts.items() if val and (f[0] == "fld" and f[1] == RESP and f[2] in self.marks() or f[0] == "op" and f[1] == "===" and f[2][0] == "fld" and f[2][1] == RESP and f[2][2] in self.marks() and f[3] == js.TRUE)]
            self.req(bool(own), "every-body-streamed", "a response whose body is neither empty nor buffered nor native is not streamed", node, e)
            self.req(bool(nat), "native-id", "a response with a native body may be left without its stream", node, e)
            return
        self.req(not bad, "stream-returns", "the function fails although a stream was made", node, e)
        self.req(v == RESP, "response-returned", f"the result is {js.show(v)}, not the response", node, e)
        self.req(sid == SID, "stream-id-set", "the response is not given the id of its stream", node, e)
        self.req(g(LAST) == SID, "stream-id-set", "the stream is not recorded for the cancellation", node, e)
        self.req(self.has(st, "ended") or self.has(st, "closed"), "always-ended", "the pump stops without an end or an error although the consumer is still there, when " + self.tell(st), node, e)
        if self.has(st, "ended"):
            k = self.val(st, "ended")
            self.req(k == "end" or self.has(st, "failed"), "failure-not-complete", "the end does not tell how the body ended", node, e)
        self.req(g(COUNT) in (COUNT0, plus(1, 1)), "count-restored", f"the number of active streams is {js.show(g(COUNT))} afterwards, when " + self.tell(st), node, e)
        if self.has(st, "closed") and self.has(st, "reader") and not self.has(st, "done") and not self.has(st, "failed"):
            self.req(self.has(st, "cancelled"), "source-cancelled", "the source is not cancelled although the consumer is gone", node, e)

    def marks(self):
        """the properties of a response that only its constructor makes true"""
        if self.fixed is None:
            mine, inside, outside = set(), set(), set()

            def ids(x):
                if isinstance(x, list):
                    for y in x:
                        ids(y)
                elif isinstance(x, dict):
                    if "id" in x:
                        mine.add(x["id"])
                    for k, y in x.items():
                        if isinstance(y, (dict, list)) and k != "loc":
                            ids(y)
            for k, f in self.w.methods(self.resp).items():
                if k == "constructor":
                    ids(self.w.p.nodes[f[1]])
            for n in self.w.p.nodes:
                if n["type"] == "AssignmentExpression" and n["left"]["type"] == "MemberExpression" and not n["left"]["computed"] and n["right"].get("value") is not False:
                    (inside if n["id"] in mine else outside).add(n["left"]["property"].get("name"))
            self.fixed = inside - outside
        return self.fixed

    def tell(self, st):
        r = []
        if self.has(st, "noreader"):
            r.append("the body is locked")
        elif self.has(st, "failed"):
            r.append("the body fails")
        if self.has(st, "done"):
            r.append("the body ends")
        if self.has(st, "closed"):
            r.append("the consumer goes away")
        return " and ".join(r) or "a chunk was read"


def plus(a, b=0):
    t = ("op", "+", COUNT0, ("c", 1))
    return ("op", "-", t, ("c", 1)) if b else t


# ---- the natives behind it, and the tasks that move bodies between the host and the streams
def natives(ctx, p, names):
    """{global name: the Rust function behind it}, from what the setup functions put on the global object"""
    out = {}
    for b in p.bodies.values():
        if "::tests::" in b.pretty or not any(n in b.text for n in names):
            continue
        rec = Rec(lambda e, st, k, n, a, r: ("set", a) if k == "call" and n.split("::")[-1] in ("set", "create_data_property", "define_own_property") and len(a) >= 3 else None, limit=40)
        e = ctx.paths(p, b, rec, unwind=False)
        for k, st, r in e.exits:
            for ev in st.trace:
                if ev[0] != "set":
                    continue
                for n in names:
                    if any(flow.mentions(a, lambda t: isinstance(t, tuple) and t[:1] in (("c",), ("str",)) and t[1] in (n, f"'{n}'", f'"{n}"')) for a in ev[1]):
                        flow.mentions(ev[1][-1], lambda t: isinstance(t, tuple) and t[:1] in (("fn",), ("const",)) and str(t[1]).endswith("_v8") and bool(out.setdefault(n, set()).add(str(t[1]))))
    res = {}
    for n in names:
        c = {x[:-3] for x in out.get(n, ())}
        m = [b for b in p.bodies.values() if any(b.pretty == x or b.pretty.endswith("::" + x) for x in c)]
        if len(m) != 1:
            raise Missing(f"native:{n}", f"cannot tell which function is registered as {n}")
        res[n] = m[0]
    return res


def native_rules(ctx, p):
    """what the script relies on: true means that exactly this went into this stream, false that nothing did"""
    F = R.roles(p)
    vs = [v[0] for v in p.adt("runtime::stream_manager::StreamChunk")["variants"]]
    keep = lambda f: True
    N = natives(ctx, p, (CREATE, WRITE, END, ERROR, CLOSED))
    for name, cls in ((WRITE, "Data"), (END, "Done"), (ERROR, "Error")):
        b = N[name]
        sid = R.arg(b, 2)
        e = ctx.paths(p, b, Rec(lambda e, st, k, n, a, r: (n.split("::")[-1], a, r) if k == "call" and re.search(r"(try_send|send|copy_contents|HashMap::get|copy_from|get_mut|copy_contents_uninit)$", n) else None, keep=keep, limit=12), unwind=False)
        seen = set()
        for k, st, r in e.exits:
            if k != "return":
                continue
            v = e.truth(st, r)
            sends = [ev for ev in st.trace if ev[0] in ("try_send", "send")]
            where = b.pretty
            for ev in sends:
                c = deref(ev[1][1])
                ok = c[0] == "agg" and c[1].endswith("::" + cls)
                ctx.require(ok, f"native-{cls}", "what", f"{name} puts {flow.show(c)} into the stream", where)
                if ok and cls == "Error":
                    ctx.require(has(c[3][0], R.arg(b, 3)), "native-Error", "reason", f"{name} puts {flow.show(c)} into the stream instead of the reason it is given", where)
                if ok and cls == "Data":
                    src = [x for x in st.trace if x[0].startswith("copy_contents") and same(deref(x[1][0]), R.arg(b, 3))]
                    dst = src and R.deref(src[0][1][1])
                    ctx.require(bool(src) and (has(c[3][0], dst) or has(dst, deref(c[3][0])) or same_base(dst, c[3][0])), "native-Data", "bytes", f"{name} puts {flow.show(c)} into the stream, not what the chunk holds", where)
                ctx.require(any(x[0] in ("get", "get_mut") and same(deref(x[1][1]), sid) and has(ev[1][0], x[2]) for x in st.trace), f"native-{cls}", "stream", f"{name} writes into a stream other than the one it is given", where)
            ctx.require(len(sends) <= 1, f"native-{cls}", "once", f"{name} writes {len(sends)} items", where)
            ctx.require(v is not None, f"native-{cls}", "answer", f"{name} answers {flow.show(r)}", where)
            went = bool(sends) and R.disc(st, sends[0][2]) == 0
            ctx.require(v is None or v == went, f"native-{cls}", "truthful", f"{name} answers {v} although the item was {'' if went else 'not '}accepted by the stream", where)
            seen.add((v, went))
        ctx.require(seen >= {(True, True), (False, False)}, f"native-{cls}", "both", f"{name} only ever answers {sorted({s[0] for s in seen}, key=str)}", b.pretty)
    b = N[CLOSED]
    e = ctx.paths(p, b, Rec(lambda e, st, k, n, a, r: (n.split("::")[-1], a, r) if k == "call" and re.search(r"HashMap::(contains_key|get)$", n) else None, keep=keep), unwind=False)
    n = 0
    for k, st, r in e.exits:
        if k != "return":
            continue
        n += 1
        look = [ev for ev in st.trace if R.under(deref(ev[1][0]), {F["senders"]}) and same(deref(ev[1][1]), R.arg(b, 2))]
        if not ctx.require(len(look) == 1, "native-closed", "looks", f"{CLOSED} does not look the stream up among the open ones", b.pretty):
            continue
        ev = look[0]
        for there in (True, False):
            s = st.fork()
            s = e.assume(s, ev[2], there) if ev[0] == "contains_key" else e.assume_disc(s, ev[2], 1 if there else 0)
            if s is not None:
                ctx.require(e.truth(s, r) is (not there), "native-closed", "truthful", f"{CLOSED} answers {flow.show(r)} when the stream is {'open' if there else 'closed'}", b.pretty)
    ctx.floor("paths of " + CLOSED, n, 1)
    b = N[CREATE]
    e = ctx.paths(p, b, Rec(lambda e, st, k, n, a, r: ("insert", a) if k == "call" and n.endswith("HashMap::insert") else None, keep=keep), unwind=False)
    for k, st, r in e.exits:
        if k == "return":
            for role in ("senders", "receivers"):
                ins = [ev for ev in st.trace if R.under(deref(ev[1][0]), {F[role]})]
                ctx.require(len(ins) == 1 and same(deref(ins[0][1][1]), deref(r)), "native-create", role, f"{CREATE} hands out {flow.show(r)}, which is not the stream it made", b.pretty)
    return vs


def same_base(a, b):
    strip = lambda t: strip(t[1]) if isinstance(t, tuple) and t and t[0] in ("mut", "ptr", "fld") else t
    return bool(a) and same(strip(a), strip(deref(b)))


def whole(ctx, p, b, no, moved):
    """a body that came with its response goes into the stream as it is, followed by the end"""
    def want(e, st, k, n, a, r):
        if k != "call":
            return None
        if n == "await":
            s = R.chunk_sent(a[0], r)
            return s and ("write",) + s
        if n.endswith("StreamManager::create_stream"):
            return ("create", r)
        if re.search(rf"({moved})$", n):
            return ("hand", a)
        return None
    e = ctx.paths(p, b, Rec(want, keep=lambda f: True, inline=lambda x: not no.search(x.pretty.split("::{closure")[0]), limit=6), unwind=False)
    vs = [v[0] for v in p.adt("openworkers_core::ResponseBody")["variants"]] if p_adt(p, "openworkers_core::ResponseBody") else ["None", "Bytes", "Stream"]
    n = 0
    for k, st, r in e.exits:
        made = [x for x in st.trace if x[0] == "create"]
        if k != "return" or not made:
            continue
        n += 1
        ws, hs = [x for x in st.trace if x[0] == "write"], [x for x in st.trace if x[0] == "hand"]
        kinds = [(f[1], v) for f, v in st.facts.items() if isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "fld" and f[1][2] == "body" and isinstance(v, int)]
        shown = [x[1] + (" " + flow.show(x[2])[-40:] if x[2] else "") for x in ws] + ["the forwarding task"] * len(hs)
        if not ctx.require(len(kinds) == 1, "whole-body", "looked-at", f"the kind of the body is not looked at before its stream gets {shown}", b.pretty):
            continue
        t, v = kinds[0]
        kind = vs[v]
        if kind == "Stream":
            ctx.require(len(hs) == 1 and not ws and any(flow.mentions(a, lambda x: x == ("fld", t, "Stream.0")) for a in hs[0][1]), "whole-body", "stream", f"a streamed body is followed by {shown}", b.pretty)
            continue
        ctx.require(bool(ws) and ws[-1][1] == "done" and not hs and len([x for x in ws if x[1] == "done"]) == 1, "whole-body", "ended", f"the stream of a {kind} body gets {shown}", b.pretty)
        data = [x for x in ws if x[1] == "data"]
        ctx.require(not [x for x in ws if x[1] not in ("data", "done")], "whole-body", "clean", f"the stream of a {kind} body gets {shown}", b.pretty)
        if kind == "Bytes":
            empty = any(isinstance(f, tuple) and f[0] == "call" and f[1].endswith("::is_empty") and has(f[2][0], ("fld", t, "Bytes.0")) and v is True for f, v in st.facts.items())
            ctx.require(len(data) == 1 and same(deref(data[0][2]), ("fld", t, "Bytes.0")) or empty and not data, "whole-body", "bytes", f"the stream of a Bytes body gets {shown}", b.pretty)
        else:
            ctx.require(not data, "whole-body", "bytes", f"the stream of an absent body gets {shown}", b.pretty)
    ctx.require(n, "whole-body", "paths", f"{b.pretty} makes a stream on no path", b.pretty)


def p_adt(p, name):
    try:
        return p.adt(name)
    except Exception:
        return None


def forwarders(ctx, p, vs):
    """the tasks that move a body from or to the host"""
    no = re.compile(r"StreamManager::write_chunk|StreamManager::close_stream")
    ins, outs = [], []
    for fb in p.bodies.values():
        if "::tests::" in fb.pretty or "async" not in fb.header:
            continue
        if re.search(r"Receiver::<\S*StreamChunk>::recv\(", fb.text) or re.search(r"Receiver<\S*StreamChunk>::recv\(", fb.text):
            outs.append(fb)
        elif re.search(r"Receiver(::)?<(std::result::)?Result<[^<>]*Bytes[^<>]*>>::recv\(", fb.text):
            ins.append(fb)
    for fb in outs:
        if not fb.pretty.startswith("runtime::stream_manager::"):
            R.pump_rule(ctx, "out", p, fb, None, None, "chunk", vs, R.result_sent, False, no, closed=lambda n, a: n.endswith("StreamManager::close_stream"))
    for fb in ins:
        R.pump_rule(ctx, "in", p, fb, None, None, "result", vs, R.chunk_sent, True, no)
    makers = [fb for fb in p.bodies.values() if "::tests::" not in fb.pretty and re.search(r"StreamManager::create_stream\(", fb.text) and fb.pretty.startswith("runtime::scheduler::")]
    # a helper that makes the stream may be shared: the rule follows it into its callers' bodies
    moved = "|".join(sorted({fb.pretty.split("::{closure")[0].split("::")[-1] for fb in ins}))
    plain = [fb for fb in makers if not re.search(rf"write_chunk\(|({moved or '-'})\(", fb.text)]
    for fb in plain:        # only makes the stream: its callers write the body
        short = fb.pretty.split("::{closure")[0].split("::")[-1]
        makers += [x for x in p.bodies.values() if x not in makers and "::tests::" not in x.pretty and re.search(rf"\b{short}\(", x.text) and not x.pretty.startswith(fb.pretty.split("::{closure")[0])]
    for fb in [x for x in makers if x not in plain]:
        whole(ctx, p, fb, re.compile(rf"StreamManager::\w+$|({moved})$"), moved)
    ctx.floor("tasks that hand a finished body to a stream", len(makers), 1)
    ctx.floor("tasks that hand a body to the host", len(outs), 1)
    ctx.floor("tasks that take a body from the host", len(ins), 2)
    ctx.functions |= {fb.pretty for fb in ins + outs}


@check("P26", "all-paths symbolic interpretation of the embedded pump with a typestate of each chunk, each stream and the count",
       "Promises of the worker's own streams are assumed to settle; console and the internal globals (names with two underscores) are assumed not to be replaced by the worker.")
def p26(ctx):
    """The script function that starts to stream a response is followed on all paths: for every kind of response (without body, buffered, native, streamed), every sequence of reads (chunks that are
    undefined, null, strings, byte arrays, other views, array buffers or anything else; the end; a failure; a body that cannot be locked) and every answer of the natives (accepted, full, closed).
    On every path each non-empty chunk is written once, as the bytes it stands for, before the next is read; the end or the error is offered until it is accepted or the consumer is gone; a failed
    body never ends cleanly; retries wait; the count of active streams is raised while the body is read and restored afterwards; a source whose consumer is gone is cancelled. The natives behind it
    must answer true exactly if the item went into the stream named. The tasks that carry bodies between host and streams pass every item on in order, report failures and early ends as errors,
    and a body that comes whole is put into its stream whole and ended."""
    w = js.world(ctx)
    fns = js_glue.stream_fns(w)
    if not fns:
        raise Missing("role:stream", "no function starts to stream a response body")
    for fid in sorted(fns):
        rule = Pump(ctx, w, w.p.nodes[fid].get("idn") or "stream function")
        e = w.engine_for(rule)
        st = e.base.fork()
        e.bump(st, {"id": -1})
        st.heap[(js.G, COUNT)] = COUNT0
        fn = ("fn", fid, ())
        fn = next((v for v in list(st.vars.values()) + list(st.heap.values()) if v[0] == "fn" and v[1] == fid), fn)
        ends = js.explore(ctx, e, fn, rule.what, js.UNDEF, [RESP], st)
        for k, v, s in ends:
            rule.end(e, k, v, s, fn)
        ctx.counts["ends of the pump"] = len(ends)
        ctx.floor("ends of the pump", len(ends), 8)
    p = ctx.prog("full")
    forwarders(ctx, p, native_rules(ctx, p))
