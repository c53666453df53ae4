"""P21: what a completion message does to the callbacks of the script."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .pool import outside_tests, FEATURES
from .reset import names

MSG = "CallbackMessage"
CALL = re.compile(r"function::(Function::)?call$")
REMOVE = re.compile(r"(HashMap|BTreeMap)::(remove|remove_entry)$")
LOOK = re.compile(r"(HashMap|BTreeMap)::(get|get_mut|entry|contains_key|insert|drain|clear|retain|values|iter)$")
RECV = re.compile(r"Receiver::(try_recv|recv|poll_recv|blocking_recv)$")
FAILS = re.compile(r"err|reject|fail", re.I)


def variants_of(p, last):
    c = [(n, d) for n, d in p.defs.items() if n.split("::")[-1] == last and d["kind"] == "enum"]
    if len(c) != 1:
        return None
    return [(v[0], [f[1].replace(" ", "") for f in v[1]]) for v in c[0][1]["variants"]]


class Dispatch:
    """one function that takes completion messages, message by message and path by path"""

    def __init__(self, ctx, p, b, variants):
        self.ctx, self.p, self.b, self.variants = ctx, p, b, variants
        self.seen, self.fired = set(), {}
        self.loop = any(RECV.search(mir.strip_generics(b.block(k)[1][2])) for k in b.blocks if b.block(k)[1][0] == "call")

        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            if RECV.search(n):
                return ("msg", r)
            if REMOVE.search(n):
                return ("remove", n, tuple(a), r)
            if LOOK.search(n) and any("callbacks" in str(x) for x in a[:1]):
                return ("look", n, tuple(a), r)
            if CALL.search(n):
                return ("js", n, tuple(a), r)
            if "populate_" in n:
                return ("fill", n, tuple(a), r)
            return None

        def keep(f):
            s = str(f)
            return isinstance(f, tuple) and f[0] == "disc" and any(x in s[:5000] for x in ("remove", "'msg'", "recv", "get_key_value", "'get'"))
        def again(e, st, ci):
            """a loop over messages is judged message by message"""
            if RECV.search(ci.path) and any(x[0] == "msg" for x in st.trace):
                self.e = e
                self.segment(e, st)
                return []
            return None
        R = Rec(want, keep=keep, call=again, inline=lambda b: "populate_" not in b.pretty)
        try:
            self.e = ctx.paths(p, b, R, max_states=60000)
        except Missing as x:
            raise Missing(x.args[0], x.args[1] if len(x.args) > 1 else "")
        for kind, st, res in self.e.exits:
            if kind == "return":
                self.segment(self.e, st)

    def message(self, st):
        """(term of the message, variant) of this path"""
        n = [v[0] for v in self.variants]
        out = []
        for f, v in st.facts.items():
            if isinstance(f, tuple) and f[0] == "disc" and isinstance(v, int):
                t = f[1]
                if t[0] == "arg" and re.search(MSG + "$", self.argty(t[1])) or t[0] == "fld" and t[2] in ("Ok.0", "Some.0") and t[1][0] == "call" and RECV.search(t[1][1]):
                    if v < len(n):
                        out.append((t, v))
        return out

    def argty(self, name):
        for n in self.b.args:
            if self.b.local_name(n) == name:
                return str(self.b.locals.get(n, ""))
        return ""

    def segment(self, e, st):
        ms = self.message(st)
        key = (tuple((m[1]) for m in ms), tuple(repr(x)[:4000] for x in st.trace), tuple(sorted((str(f)[:3000], str(v)) for f, v in st.facts.items())))
        if not ms or key in self.seen:
            return
        self.seen.add(key)
        for m, v in ms[-1:]:
            self.judge(e, st, m, v)

    def judge(self, e, st, m, v):
        ctx, where = self.ctx, self.b.pretty
        name, fields = self.variants[v]
        if not any("CallbackId" in f for f in fields) or re.search(r"Timeout|Interval|Timer", name):
            return self.other(e, st, m, v)
        bad = bool(FAILS.search(name))
        for f, k in st.facts.items():       # result kinds that carry an error of their own
            if isinstance(f, tuple) and f[0] == "disc" and f[1] != m and flow.mentions(f[1], lambda t: t == m) and f[1][0] == "fld" and isinstance(k, int):
                inner = variants_of(self.p, fields[1].split("::")[-1]) if len(fields) > 1 else None
                if inner and k < len(inner):
                    bad = bad or inner[k][0] == "Error"
        streams = "Stream" in name and "Chunk" in name
        removed = {}
        for i, x in enumerate(st.trace):
            if x[0] == "remove":
                path = names(x[2][0])
                if path and "callback" in path[-1]:
                    key = x[2][1]
                    ctx.require(flow.mentions(key, lambda t: t == m), "own-callback", f"{where}:{name}:{path[-1]}", f"{where} takes the callback of another operation than the one that {name} completes", where)
                    removed[path[-1]] = (i, x[3])
        maps = sorted(removed)
        good = [n for n in maps if not FAILS.search(n)]
        fail = [n for n in maps if FAILS.search(n)]
        ctx.require(bool(good) and (streams or bool(fail)), "registrations-removed", f"{where}:{name}", f"{where} leaves a callback of the operation that {name} completes registered (removed: {', '.join(maps) or 'none'})", where)
        calls = [(i, x) for i, x in enumerate(st.trace) if x[0] == "js"]
        ctx.require(len(calls) <= 1, "settled-once", f"{where}:{name}", f"{where} calls {len(calls)} callbacks for one {name}", where)
        side = fail if bad and not streams else good
        if streams:
            side = [n for n in side if "stream" in n] or side
        there = [n for n in side if st.facts.get(("disc", removed[n][1])) == 1 or st.facts.get(("disc", self.e.strip(st, removed[n][1]))) == 1]
        gone = [n for n in side if st.facts.get(("disc", removed[n][1])) == 0 or st.facts.get(("disc", self.e.strip(st, removed[n][1]))) == 0]
        if side:
            ctx.require(bool(calls) or bool(gone) and not there, "settled", f"{where}:{name}", f"{where}: {name} arrives and its {'failure' if bad else 'success'} callback is registered, but is not called", where)
        for i, x in calls:
            fn, args = x[2][0], x[2][-1]
            from_ = [n for n in maps if flow.mentions(fn, lambda t, r=removed[n][1]: t == r)]
            ctx.require(bool(from_) and set(from_) <= set(side), "right-callback", f"{where}:{name}", f"{where}: {name} is a {'failure' if bad else 'success'}, but the callback that is called comes from {', '.join(from_) or 'elsewhere'}", where)
            ctx.require(self.carries(e, st, i, args, m, v), "own-payload", f"{where}:{name}", f"{where}: the callback that {name} settles is not given what the message carries", where)
            self.fired.setdefault(name, set()).add("failure" if bad and not streams else "success")

    def carries(self, e, st, i, args, m, v, skip=1):
        """each field of the message (but the identifier) goes into what the callback is given, directly or through a function that fills the object"""
        name, fields = self.variants[v]
        given = [args] + [e.strip(st, t) for t in flow.walk(args) if isinstance(t, tuple)]
        for x in st.trace[:i]:
            if x[0] == "fill" and any(flow.mentions(args, lambda t, a=a: t == a) for a in x[2][1:] if isinstance(a, tuple) and a[0] == "call"):
                given += [e.strip(st, a) for a in x[2]] + list(x[2])
        for k in range(skip, len(fields)):
            part = lambda t: isinstance(t, tuple) and t[:1] == ("fld",) and t[1] == m and t[2] == f"{name}.{k}"
            if not any(flow.mentions(g, part) for g in given):
                return False
        return True

    def other(self, e, st, m, v):
        name = self.variants[v][0]
        calls = [x for x in st.trace if x[0] == "js"]
        self.ctx.require(len(calls) <= 1, "settled-once", f"{self.b.pretty}:{name}", f"{self.b.pretty} calls {len(calls)} functions for one {name}", self.b.pretty)
        if calls:
            self.fired.setdefault(name, set()).add("success")
            self.ctx.require("WebSocket" in name or self.carries(e, st, len(st.trace), calls[0][2][-1], m, v, 0), "own-payload", f"{self.b.pretty}:{name}", f"{self.b.pretty}: {name} does not hand over what the message carries", self.b.pretty)


def dispatchers(p, g_js):
    for b in p.bodies.values():
        if not outside_tests(b) or "{closure" in b.pretty:
            continue
        b.parse()
        if not any(re.search(r"(^|::)" + MSG + "$", str(t)) for t in b.locals.values()) or b.pretty not in g_js:
            continue
        # the ones that look into the message
        if any(s[0] == "assign" and s[2][0] == "disc" and re.search(MSG + "$", str(b.locals.get(s[2][1][0], ""))) for k in b.blocks for s in b.block(k)[0]):
            yield b


@check("P21", "path enumeration over MIR of every function that takes completion messages: callback registrations removed, callback called and payload handed over on each path of each message kind",
       "that each operation sends one message is P22's matter, and what the callbacks do is the scripts' (P36, P38, P41); a callback whose call throws is not followed", level="other")
def p21(ctx):
    """Every function that looks into a completion message is followed on all paths (the helpers it dispatches through included).  On each path of each message kind that answers an operation: the callbacks
    taken out of the tables are those of the identifier in the message, both the success and the failure registration (or the stream's) are removed, at most one callback is called, it is the one from
    the table that the outcome in the message selects, it is called whenever it is registered, and what it is given is made from the message.  Each function handles every kind."""
    from .runs import Graph
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        variants = variants_of(p, MSG)
        if not variants:
            raise Missing("role:messages", f"no enum {MSG}")
        bs = list(dispatchers(p, Graph(p).js))
        tag = "+".join(feats) or "default"
        ctx.floor(f"functions that take completion messages ({tag})", len(bs), 3)
        for b in bs:
            d = Dispatch(ctx, p, b, variants)
            for name, fields in variants:
                got = d.fired.get(name, set())
                inner = variants_of(p, fields[1].split("::")[-1]) if len(fields) > 1 else None
                need = {"failure"} if FAILS.search(name) else {"success"}
                if inner and any(x[0] == "Error" for x in inner) and "CallbackId" in fields[0] and "Chunk" not in name:
                    need = {"success", "failure"}
                ctx.require(need <= got, "kind-handled", f"{b.pretty}:{name}", f"{b.pretty} has no path that delivers a {name} as {' and '.join(sorted(need - got))}", b.pretty)
            ctx.sample(f"{b.pretty}: " + ", ".join(f"{k} ({'/'.join(sorted(v))})" for k, v in sorted(d.fired.items())))
