"""P27: what text is ever compiled as a script, and the environment object."""
import json, os, re, subprocess
from .. import flow, js, mir, build
from ..check import check, Missing
from ..rlib import *
from .limits import last, ret_type
from .snapshot import call

EVENT = re.compile(r"v8::(?:script::(?:Script::)?compile|(?:script_compiler::)?(?:Source::)?new_with_cached_data|script_compiler::Source::new)$")
MK = re.compile(r"v8::(?:\w+::)*(?:S|s)tring::(?:\w+::)*new\w*$")
JSON = re.compile(r"serde_json::(?:\w+::)*(to_string|to_string_pretty)$")
JSONV = re.compile(r"serde_json::(?:\w+::)*(to_value|Value::(?:from|String))$|serde_json::Value::\w+$|serde_json::json")
EACH = ("map", "iter", "into_iter", "collect", "filter", "values", "keys", "cloned", "copied", "as_slice", "filter_map", "flat_map", "enumerate", "rev")


def bytes_of(s):
    """the bytes of a rust byte-string literal as MIR prints it"""
    out, i = bytearray(), 0
    s = s[2:-1]
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode("utf-8", "surrogateescape")
            i += 1
            continue
        c = s[i + 1]
        if c == "x":
            out.append(int(s[i + 2:i + 4], 16))
            i += 4
        else:
            out += {"n": b"\n", "t": b"\t", "r": b"\r", "0": b"\0", "\\": b"\\", "'": b"'", '"': b'"'}[c]
            i += 2
    return bytes(out)


def unescape(s):
    """a string literal as MIR prints it"""
    return re.sub(r"\\(u\{([0-9a-f]+)\}|x([0-9a-f]{2})|.)", lambda m: chr(int(m.group(2) or m.group(3), 16)) if m.group(2) or m.group(3) else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), s, flags=re.S)


def template(s):
    """a compiled format string: text and argument numbers"""
    b, i, out, n = bytes_of(s), 0, [], 0
    while i < len(b) and b[i]:
        c = b[i]
        i += 1
        if c < 0x80:
            out.append(b[i:i + c].decode("utf-8"))
            i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + k].decode("utf-8"))
            i += 2 + k
        else:
            i += (4 if c & 1 else 0) + (2 if c & 2 else 0) + (2 if c & 4 else 0)
            if c & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(n)
            n += 1
    return out


def plain(t):
    while isinstance(t, tuple) and t and (t[0] in ("ptr", "deref", "guard") and len(t) > 1 and isinstance(t[1], tuple) or call(t, "as_str", "deref", "as_ref", "must_use", "to_owned", "clone", "into", "from", "borrow", "into_boxed_str", "to_string") and len(t[2]) == 1 and not JSON.search(t[1]) and not JSONV.search(t[1])):
        t = t[1] if t[0] != "call" else t[2][0]
    return t


def root(t):
    while t[0] in ("mut", "ptr", "guard"):
        t = t[1]
    return t


class Text(Rec):
    """follows how strings are put together"""

    def __init__(self, p, want, stop):
        self.stop, self.pushed = stop, {}
        super().__init__(self.record, keep=lambda f: "binding_type" in repr(f), limit=200, inline=self.helper, call=self.typed)
        self.p, self.sink = p, want

    def helper(self, b):
        b.parse()
        r = ret_type(b)
        return "unpack_code_cache" not in b.pretty and "Result<()" not in r and b.pretty not in self.stop and ("{closure" in b.pretty or re.search(r"String|&.*str\b|Value", r) is not None and "v8::" not in r)

    def record(self, e, st, kind, name, args, res):
        if kind != "call":
            return None
        s = self.sink(e, st, name, args)
        if s:
            self.found(e, st, args)
            return None
        if "Vec" in name and not any(x[0] == "call" and (JSON.search(x[1]) or last(x[1]) == "format") for a in args for x in flow.walk(a) if isinstance(x, tuple) and x):
            return None
        if "Vec" in name and last(name) == "push":
            self.pushed.setdefault(root(args[0]), []).append((e, st.fork(), args[1]))
            return None
        if last(name) in ("push_str", "push", "write_str", "write_fmt", "extend", "insert_str", "add_assign", "replace_range", "write_char", "insert", "append") and args:
            return ("build", last(name), args)
        return None

    def typed(self, e, st, ci):
        if JSON.search(ci.path):
            m = re.search(r"::<(.*)>$", ci.text)
            ty = m.group(1) if m else ""
            s = "str" if re.fullmatch(r"(&('\w+ )?)*(mut )?(str|std::string::String|std::borrow::Cow<.*str>|char|std::boxed::Box<str>)", ty) else "other"
            return e.finish(st, ci, ("call", ci.path, (e.strip(st, ci.vals[0]), ("c", s)), st.site()))
        return None

    # ---- pieces: [("lit", text) | ("json", kind, term) | ("other", term) | ("many", alternatives, separator)]
    def pieces(self, e, st, t):
        base = t
        while base[0] == "mut":
            base = base[1]
        out = self.fixed(e, st, plain(base))
        for ev in st.trace:
            if ev[0] != "build":
                continue
            x = ev[2][0]
            while x[0] in ("mut", "ptr", "guard"):
                x = x[1]
            if x != base:
                continue
            if ev[1] in ("push_str", "write_str", "add_assign", "push", "write_char"):
                out = [a + b for a in out for b in self.pieces(e, st, ev[2][1])]
            elif ev[1] == "write_fmt":
                out = [a + b for a in out for b in self.fixed(e, st, ("call", "std::fmt::format", (ev[2][1],), None))]
            else:
                out = [a + [("other", ev[2][-1])] for a in out]
        return out

    def fixed(self, e, st, t):
        t = plain(t)
        if t[0] == "mut":
            return self.pieces(e, st, t)
        if t[0] == "c":
            return [[("lit", unescape(t[1]) if isinstance(t[1], str) else str(t[1]))]]
        if t == ("default",) or call(t, "new", "with_capacity") and "String" in t[1]:
            return [[("lit", "")]]
        if t[0] == "fld" and t[2] == "Ok.0" and t[1][0] == "call" and JSON.search(t[1][1]):
            return [[("json", t[1][2][1][1] if len(t[1][2]) > 1 else "other", t[1][2][0])]]
        if t[0] == "call" and JSONV.search(t[1]) or t[0] == "agg" and t[1].startswith("serde_json::"):
            return [[("json", "str" if t[1].endswith("String") else "other", t)]]
        if t[0] == "fld" and t[2] == "Ok.0" and t[1][0] == "call" and JSONV.search(t[1][1]):
            return [[("json", "other", t)]]
        if call(t, "format", "from_str", "as_str") and len(t[2]) == 1 and t[2][0][0] == "call" and "Arguments" in t[2][0][1]:
            a = t[2][0]
            if len(a[2]) == 1:
                return self.fixed(e, st, a[2][0])
            tm, args = plain(a[2][0]), plain(a[2][1])
            if tm[0] in ("const", "fn") and tm[1].startswith('b"') and args[0] == "agg":
                out = [[]]
                for x in template(tm[1]):
                    if isinstance(x, str):
                        out = [o + [("lit", x)] for o in out]
                    else:
                        v = plain(args[3][x])
                        got = self.pieces(e, st, v[2][0]) if call(v, "new_display") else [[("other", v)]]
                        out = [o + g for o in out for g in got]
                return out
        if t[0] in ("fn", "const") and not t[1].startswith('b"'):
            return [[("lit", " /* " + t[1] + " */ ")]]
        if call(t, "add") and len(t[2]) == 2:
            return [a + b for a in self.pieces(e, st, t[2][0]) for b in self.pieces(e, st, t[2][1])]
        if call(t, "join", "concat") and t[2]:
            sep = plain(t[2][1]) if len(t[2]) > 1 else ("c", "")
            sep = ("c", unescape(sep[1])) if sep[0] == "c" else sep
            el = self.elements(e, st, t[2][0])
            if el is not None and sep[0] == "c":
                return [[("many", el, sep[1])]] if el[0] == "each" else [self.joined(el[1], sep[1])]
        return [[("other", t)]]

    def joined(self, parts, sep):
        out = []
        for i, p in enumerate(parts):
            out += ([("lit", sep)] if i else []) + p
        return out

    def elements(self, e, st, t):
        """("each", [(facts, pieces)]) of a mapped collection, or ("list", [pieces]) of one that is written out"""
        t = plain(t)
        if root(t) in self.pushed:
            return ("each", [(dict(s.facts), x) for e1, s, v in self.pushed[root(t)] for x in self.pieces(e1, s, e1.strip(s, v))])
        while t[0] == "mut":
            t = plain(t[1])
        if t[0] == "agg" and t[1] == "[]":
            return ("list", [self.pieces(e, st, x)[0] for x in t[3]])
        while call(t, *EACH) and t[2]:
            if call(t, "map") and len(t[2]) == 2:
                clo = t[2][1]
                b = e.closure_body(st, e.strip_keep(st, clo)) if clo[0] == "agg" else self.p.by_pretty.get(clo[1]) if clo[0] == "fn" else None
                if b is None:
                    return None
                b.parse()
                R2 = Text(self.p, lambda *a: False, self.stop)
                e2 = flow.Engine(e.p, R2, max_states=20000)
                par = b.args[1:] if clo[0] == "agg" else b.args
                e2.run(b, args={b.args[0]: clo} if clo[0] == "agg" else None)
                out = []
                for k, s, r in e2.exits:
                    if k == "return":
                        out += [(dict(s.facts), x) for x in R2.pieces(e2, s, e2.strip(s, r))]
                return ("each", out)
            t = plain(t[2][0])
        return None


def texts(ctx, p):
    """[(function, pieces)] for everything that is compiled as a script"""
    out, roots, seen = [], [], set()
    sinks = {}
    for rx in ("compile$", "Source::new$", "new_with_cached_data$"):
        for b, bb, t in callers(p, rx):
            if "::tests::" not in b.pretty and EVENT.search(mir.strip_generics(t[2])):
                sinks.setdefault(b.pretty, (b, set()))[1].add(bb)

    def source(e, st, name, args):
        return EVENT.search(name)
    todo = [(b, at, source, None) for b, at in sinks.values()]
    ctx.counts["functions that compile scripts"] = len(sinks)
    while todo:
        b, at, want, key = todo.pop()
        if (b.pretty, key) in seen:
            continue
        seen.add((b.pretty, key))
        R = Text(p, want, set(sinks) | {n for n, _ in seen})
        up, done, hits = set(), set(), []
        R.found = lambda e, st, args: hits.append((e, st.fork(), args))
        R.useful = b.leads_to(at)
        ctx.paths(p, b, R, max_states=60000)
        for e, st, args in hits:
            for term in strings(args) if key is None else [args[key]]:
                for x in R.pieces(e, st, e.strip(st, term)):
                    x = merge(x)
                    if len(x) == 1 and x[0][0] == "other":
                        a = plain(x[0][1])
                        i = next((i for i, n in enumerate(b.args) if ("arg", b.local_name(n)) == a), None)
                        if i is not None:
                            up.add(i)
                            continue
                    rep = repr(x)
                    if rep not in done:
                        done.add(rep)
                        out.append((b, x))
        for i in up:
            cs = {}
            for c, bb, _ in callers(p, re.escape(b.pretty) + "$"):
                if "::tests::" not in c.pretty:
                    cs.setdefault(c.pretty, (c, set()))[1].add(bb)
            ctx.counts["functions that pass a script on"] = ctx.counts.get("functions that pass a script on", 0) + 1
            for c, at in cs.values():
                todo.append((c, at, (lambda nm: lambda e, st, name, args: name == nm)(b.pretty), i))
    return out


def strings(args):
    """the texts of the v8 strings among the arguments of a compile call"""
    out = []
    for a in args:
        for x in flow.walk(a):
            if isinstance(x, tuple) and x and x[0] == "call" and MK.search(x[1]):
                out.append(x[2][-1])
                break
    return out[:1]


def merge(x):
    out = []
    for p in x:
        if p[0] == "lit" and not p[1]:
            continue
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return out or [("lit", "")]


def whole_script(p, t):
    """the tenant's own script, given as it is"""
    for x in flow.walk(t):
        if isinstance(x, tuple) and x and x[0] == "fld":
            m = re.match(r"(\w+)\.\d+$", str(x[2]))
            if m and m.group(1) in ("JavaScript", "TypeScript"):
                return True
            if x[2] == "0" and any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) == "unpack_code_cache" for y in flow.walk(x[1])):
                return True
    return False


def expand(pieces, n=0):
    """[(facts of the list element, pieces without lists)]: lists empty, with each kind of element, and with two elements"""
    for i, x in enumerate(pieces):
        if x[0] == "many":
            alts, sep = x[1][1], x[2]
            out = []
            picks = [[]] + [[a] for a in alts] + [[a, a] for a in alts]
            for pk in picks:
                mid = []
                for j, (f, ps) in enumerate(pk):
                    mid += ([("lit", sep)] if j else []) + [(q[0], q[1], ("el", j, q[2])) if q[0] == "json" else q for q in ps]
                for f2, rest in expand(pieces[i + 1:]):
                    out.append(([f for f, _ in pk] + f2, pieces[:i] + mid + rest))
            return out
    return [([], pieces)]


def fill(pieces):
    """script text with a marked value in place of every JSON value; equal values get equal marks"""
    marks, text = {}, ""
    for x in pieces:
        if x[0] == "lit":
            text += x[1]
        else:
            m = marks.setdefault(repr(x[2]), (f"__HOLE_{len(marks)}__", x))
            text += f'"{m[0]}"' if x[1] == "str" else f'{{"{m[0]}": "__VALUE__"}}'
    return text, {m: x for m, x in marks.values()}


def parse(jobs):
    mod = next((a for a in js.ACORN if os.path.exists(a)), None)
    if mod is None:
        raise build.BuildError("acorn is not installed")
    r = subprocess.run(["node", f"{js.HERE}/jsparse.js", mod], input=json.dumps(jobs), capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError("cannot parse scripts: " + r.stderr[-500:])
    return json.loads(r.stdout)


def literals(n, out):
    if isinstance(n, list):
        for x in n:
            literals(x, out)
    elif isinstance(n, dict):
        if n.get("type") == "Literal" and isinstance(n.get("value"), str):
            out.append(n["value"])
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k != "loc":
                literals(v, out)


@check("P27", "taint tracking over MIR string construction (format templates decoded), parsing of the resulting script with marked values, and abstract interpretation of the environment script",
       "serde_json's output is trusted to be a JavaScript expression; the tenant's own script is by definition code.")
def p27(ctx):
    """Every string that reaches the script compiler is traced back to its pieces (format templates are decoded from the compiled
    program, lists and closures followed, parameters followed into all callers). A piece may be text of the runtime itself or the
    result of JSON encoding; anything else is only allowed if the whole script is the tenant's own code. The assembled text is
    then parsed with marked values in place of the encoded ones: each mark must be a literal of its own, not part of another
    string, template or comment. Finally the environment script is interpreted: it must define globalThis.env once, as a frozen
    object that can be neither replaced nor reconfigured, and each method of each binding must call the native of its own kind
    with that binding's own name and the operation of its own name."""
    for feats in ((), ("unsafe-worker-snapshot",)):
        p = ctx.prog("full", feats)
        found = texts(ctx, p)
        if not feats:
            ctx.floor("compiled script texts", len(found), 10)
        spliced = []
        for b, x in found:
            show = "".join(q[1] if q[0] == "lit" else "‹" + ("json" if q[0] == "json" else "list" if q[0] == "many" else flow.show(q[1])) + "›" for q in x)[:160]
            if len(x) == 1 and x[0][0] == "other":
                ctx.require(whole_script(p, x[0][1]), "source", b.pretty, f"{flow.show(x[0][1])} is compiled as a script but is not the worker's own code", b.pretty)
                continue
            for facts, ps in expand(x):
                bad = [q for q in ps if q[0] == "other"]
                ctx.require(not bad, "encoded", b.pretty, f"{', '.join(flow.show(q[1]) for q in bad[:3])} is spliced into script text without JSON encoding", f"{b.pretty}: {show}")
                if not bad and any(q[0] == "json" for q in ps):
                    spliced.append((b, facts, ps))
        if not feats and not p.unanalysed:
            ctx.floor("texts with spliced values", len(spliced), 2)
        jobs = [fill(ps) for _, _, ps in spliced]
        asts = parse([t for t, _ in jobs])
        env = 0
        for (b, facts, ps), (text, marks), a in zip(spliced, jobs, asts):
            if not ctx.require("ast" in a, "syntax", b.pretty, f"the assembled script does not parse: {a.get('error')}", f"{b.pretty}: {text[:200]}"):
                continue
            ls = []
            literals(a["ast"], ls)
            for m in marks:
                n, k = text.count(m), sum(1 for x in ls if x == m)
                ctx.require(n == k, "position", b.pretty, f"an encoded value is placed inside other script text (string, template or comment): {context(text, m)}", b.pretty)
            if not feats:
                env += environment(ctx, p, b, facts, text, marks, a["ast"])
        if not feats and not p.unanalysed:
            ctx.floor("environment scripts", env, 2)


def context(text, m):
    i = text.index(m)
    return text[max(0, i - 30):i + 40].replace("\n", " ")


class Env:
    """records what the environment script does"""
    max_join = 1

    def __init__(self):
        self.natives = set()

    def call(self, e, st, f, this, args, n, out):
        name = f[1] if f[0] == "global" else None
        if name in ("Object.freeze", "Object.preventExtensions", "Object.seal") and args:
            if name == "Object.freeze":
                st.heap[(args[0], "$frozen")] = js.TRUE
            return [(st, args[0])]
        if name == "Object.defineProperty" and len(args) == 3:
            e.emit(st, ("define", tuple(args)))
            return [(st, args[0])]
        if name and name.startswith("__nativeBinding"):
            self.natives.add((name, tuple(args)))
            return [(st, js.UNDEF)]
        return None

    def event(self, e, st, kind, n, *a):
        if kind == "set" and a[0] == js.G and a[1] == "env":
            e.emit(st, ("assign", a[2]))


def environment(ctx, p, b, facts, text, marks, ast):
    w = js.world(ctx)
    rule = Env()
    eng = w.engine_for(rule)
    s = js.Script("env", 1, "", text, False)
    s.ast = ast
    n0 = len(w.p.nodes)
    eng.p.number(ast, s)
    st = w.base.fork()
    eng.parent[js.TOP] = None
    try:
        ends = [c for c in eng.block_body(ast["body"], st, js.TOP, hoist_global=True)]
    except js.Budget as x:
        raise Missing("environment", str(x))
    seen = 0
    for c in ends:
        st = c[2]
        defs = [ev for ev in st.trace if ev[0] in ("define", "assign") and (ev[0] == "assign" or ev[1][1] == js.const("env") and ev[1][0] in (js.G, ("global", "globalThis")))]
        if not defs:
            continue
        seen = 1
        if not ctx.require(c[0] == "n" and len(defs) == 1 and defs[0][0] == "define", "environment", "defined", "the environment is not defined exactly once with fixed attributes", b.pretty):
            continue
        d = defs[0][1][2]
        at = {k: st.heap.get((d, k)) for k in ("value", "writable", "configurable", "get", "set")}
        ctx.require(at["writable"] in (None, js.FALSE) and at["configurable"] in (None, js.FALSE) and at["get"] is None, "environment", "fixed", f"the environment can be replaced (writable {js.show(at['writable']) if at['writable'] else 'false'}, configurable {js.show(at['configurable']) if at['configurable'] else 'false'})", b.pretty)
        v = at["value"]
        if not ctx.require(v is not None and st.heap.get((v, "$frozen")) == js.TRUE, "environment", "frozen", "the environment object is not frozen", b.pretty):
            continue
        vars_ = [m for m, x in marks.items() if x[1] != "str"]
        for m in vars_:
            ctx.require(st.heap.get((v, m)) == js.const("__VALUE__"), "environment", "values", "a configured value does not reach the environment", b.pretty)
        names = [m for m, x in marks.items() if x[1] == "str"]
        kinds = [kind(p, f) for f in facts]
        if len(kinds) == len(names):
            for m, k in zip(names, kinds):
                o = st.heap.get((v, m))
                if ctx.require(o is not None, "binding", f"{k}:present", f"the {k} binding is not found under its own name", b.pretty):
                    binding(ctx, eng, st, o, m, k, b)
    return seen


def kind(p, facts):
    for t, v in facts.items():
        if t[0] == "disc" and isinstance(v, int) and t[1][0] == "fld" and t[1][2] == "binding_type":
            d = next((a for n, a in p.adts.items() if n.endswith("BindingType")), None) if hasattr(p, "adts") else p.adt("openworkers_core::BindingType")
            if d:
                return d["variants"][v][0]
            return str(v)
    return "?"


NATIVE = {"Assets": "__nativeBindingFetch"}


def binding(ctx, eng, st, o, name, k, b):
    ms = {key[1]: v for key, v in st.heap.items() if key[0] == o and isinstance(key[1], str) and v[0] == "fn"}
    ctx.require(bool(ms), "binding", f"{k}:methods", f"the {k} binding has no methods", b.pretty)
    want = NATIVE.get(k, "__nativeBinding" + k)
    for m, f in sorted(ms.items()):
        s0 = st.fork()
        s0.trace = ()
        eng.rule.natives = set()
        js.explore(ctx, eng, f, f"{k}.{m}", this=o, st=s0)
        for nm, a in sorted(eng.rule.natives, key=repr):
            ctx.require(nm == want, "binding", f"{k}:native", f"{k}.{m} calls {nm}", b.pretty)
            ctx.require(a and a[0] == js.const(name), "binding", f"{k}:name", f"{k}.{m} passes {js.show(a[0]) if a else 'nothing'} instead of the binding's own name", b.pretty)
            if len(a) > 1 and a[1][0] == "c" and isinstance(a[1][1], str):
                ctx.require(a[1][1] == m, "binding", f"{k}:operation", f"{k}.{m} asks for the operation {a[1][1]}", b.pretty)
        ctx.require(bool(eng.rule.natives), "binding", f"{k}:{m}:reaches", f"{k}.{m} never reaches its native", b.pretty)
