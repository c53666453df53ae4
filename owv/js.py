"""Path-sensitive dataflow over the JavaScript that the runtime embeds in its Rust sources.

load() finds every script text (string literals, format! templates, include_str! files), parses them and returns a Program.
Engine walks all paths of a function over abstract values; branches are decided by facts recorded on the path, calls to
functions of the program are entered, everything else is an opaque call.  Whatever may have been changed by others while a
function was suspended (await, yield) or while unknown code ran is forgotten."""
import json, os, re, subprocess
from . import build, rustsrc

HERE = os.path.dirname(os.path.abspath(__file__))
ACORN = ["/opt/veriftools/node/node_modules/acorn", "/opt/veriftools/node/node_modules/acorn/dist/acorn.js"]
UNDEF, NULL, G = ("undef",), ("null",), ("G",)
TRUE, FALSE = ("b", True), ("b", False)
TOP = ("sc", 0, ())             # the scope that scripts share


class Budget(Exception):
    pass


# ------------------------------------------------------------------------------------------------ extraction

def unescape(s):
    try:
        return re.sub(r"\\(\n\s*|u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)",
                      lambda m: "" if m.group(1)[0] == "\n" else chr(int(m.group(1)[2:-1], 16)) if m.group(1)[0] == "u" else chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x"
                      else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), s, flags=re.S)
    except ValueError:
        return s


LOOKS = re.compile(r"globalThis|crypto\.subtle|Object\.defineProperty|=>|function\s*\w*\s*\(")


class Script:
    def __init__(self, file, line, fn, text, template):
        self.file, self.line, self.fn, self.text, self.template = file, line, fn, text, template
        self.ast, self.error = None, None

    def __repr__(self):
        return f"{self.file}:{self.line}"


def extract():
    root = build.REPO
    out = []
    for d, dirs, fs in os.walk(f"{root}/src"):
        dirs.sort()
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            p = os.path.join(d, f)
            text = open(p, encoding="utf-8").read()
            toks = rustsrc.tokens(text)
            bodies = rustsrc.fn_bodies(text)
            tests = [m.start() for m in re.finditer(r"#\[cfg\(test\)\]", text)]
            for i, (k, t, off) in enumerate(toks):
                s = None
                if k == "raw":
                    s = t
                elif k == "str" and "\n" in t + unescape(t) and not t.startswith("b"):
                    s = unescape(t[t.index('"') + 1:-1])
                elif k == "id" and t == "include_str" and i + 3 < len(toks) and toks[i + 3][0] == "str":
                    q = os.path.normpath(os.path.join(d, toks[i + 3][1][1:-1]))
                    s = open(q, encoding="utf-8").read() if os.path.exists(q) else None
                if s is None or not LOOKS.search(s):
                    continue
                if tests and off > tests[0]:
                    continue
                tmpl = i >= 3 and toks[i - 1][1] == "(" and toks[i - 2][1] == "!" and toks[i - 3][1] in ("format", "format_args", "write", "writeln")
                if tmpl:
                    s = re.sub(r"\{\{|\}\}|\{([^{}]*)\}", lambda m: m.group()[0] if m.group() in ("{{", "}}") else hole(m.group(1)), s)
                fn = [b for b in bodies if b["open"] < off < b["close"]]
                fn = max(fn, key=lambda b: b["open"])["name"] if fn else ""
                out.append(Script(os.path.relpath(p, root), text.count("\n", 0, off) + 1, fn, s, tmpl))
    return out


def hole(n):
    return '"__HOLE_' + re.sub(r"\W", "_", n) + '__"'


def order():
    """names of the setup functions in the order in which a pooled context runs them (nested calls included)"""
    root = build.REPO
    bodies = {}
    for d, dirs, fs in os.walk(f"{root}/src"):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(".rs"):
                text = open(os.path.join(d, f), encoding="utf-8").read()
                for b in rustsrc.fn_bodies(text):
                    x = text[b["open"]:b["close"]]
                    if b["name"].startswith("setup_") and len(x) > len(bodies.get(b["name"], "")):
                        bodies[b["name"]] = x
                    if f == "execution_context.rs" and x.count("setup_") > bodies.get("", "").count("setup_"):
                        bodies[""] = x
    out = []

    def go(n):
        if n in out:
            return
        out.append(n)
        for m in re.finditer(r"\b(setup_\w+)\s*\(", bodies.get(n, "")):
            go(m.group(1))
    go("")
    return out


def load():
    scripts = extract()
    jobs = []
    for s in scripts:
        jobs.append(s.text)
        t = re.sub(r'("__HOLE_\w*__")\s*(?="__HOLE_)', r"\1, ", s.text) if s.template else s.text
        jobs.append("({" + s.text + "})" if t == s.text else t)
    mod = next((a for a in ACORN if os.path.exists(a)), None)
    if mod is None:
        raise build.BuildError("acorn is not installed")
    r = subprocess.run(["node", f"{HERE}/jsparse.js", mod], input=json.dumps(jobs), capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError("cannot parse scripts: " + r.stderr[-500:])
    res = json.loads(r.stdout)
    P = Program()
    for i, s in enumerate(scripts):
        a = res[2 * i]
        if "ast" in a:
            s.ast = a["ast"]
        elif "ast" in res[2 * i + 1]:
            s.ast = res[2 * i + 1]["ast"]
        else:
            s.error = a["error"]
        P.add(s)
    return P


class Program:
    def __init__(self):
        self.scripts, self.nodes, self.where = [], [], []

    def ordered(self):
        """the scripts of the setup functions in the order in which they run"""
        o = order()
        return sorted([s for s in self.scripts if s.ast and s.fn in o and s.ast["type"] == "Program"], key=lambda s: (o.index(s.fn), s.line))

    def add(self, s):
        self.scripts.append(s)
        if s.ast:
            self.number(s.ast, s)

    def number(self, n, s):
        if isinstance(n, list):
            for x in n:
                self.number(x, s)
        elif isinstance(n, dict) and "type" in n:
            if "id" in n:
                old = n.pop("id")
                if n["type"] == "VariableDeclarator":
                    n["id_"] = old
                else:
                    n["idn"] = old["name"] if old else None
            n["id"] = len(self.nodes)
            self.nodes.append(n)
            self.where.append(s)
            for k, v in n.items():
                if isinstance(v, (dict, list)) and k != "loc":
                    self.number(v, s)

    def line(self, nid):
        s, n = self.where[nid], self.nodes[nid]
        return f"{s.file}:{s.line + n['loc']['start']['line'] - 1}"

    def stable(self):
        """{(class node, property)} that are only ever assigned as this.<name> by the constructor"""
        if hasattr(self, "_stable"):
            return self._stable
        good, bad = set(), set()

        def go(n, ctor, cls=None):
            if isinstance(n, list):
                for x in n:
                    go(x, ctor, cls)
                return
            if not isinstance(n, dict) or "type" not in n:
                return
            t = n["type"]
            tg = []
            if t in ("ClassDeclaration", "ClassExpression"):
                cls = n["id"]
            if t == "AssignmentExpression":
                tg = [(n["left"], n["operator"] == "=")]
            elif t == "UpdateExpression" or t == "UnaryExpression" and n["operator"] == "delete":
                tg = [(n["argument"], False)]
            elif t in ("ForOfStatement", "ForInStatement"):
                tg = [(n["left"], False)]
            for l, plain in tg:
                if l["type"] == "MemberExpression" and not l["computed"]:
                    nm = ("#" if l["property"]["type"] == "PrivateIdentifier" else "") + l["property"]["name"]
                    if l["object"]["type"] == "ThisExpression" and cls is not None:
                        (good if plain and ctor else bad).add((cls, nm))
                    else:
                        bad.add(nm)
                elif l["type"] in ("ObjectPattern", "ArrayPattern"):
                    def pats(q):
                        if isinstance(q, dict):
                            if q.get("type") == "MemberExpression" and not q["computed"]:
                                bad.add(q["property"]["name"])
                            for v in q.values():
                                pats(v)
                        elif isinstance(q, list):
                            for v in q:
                                pats(v)
                    pats(l)
            if t == "MethodDefinition":
                go(n["value"], n["kind"] == "constructor", cls)
                return
            for k, v in n.items():
                if k in ("loc", "id"):
                    continue
                inner = ctor and not (t == "FunctionDeclaration")
                go(v, inner, cls if t != "FunctionDeclaration" else None)
        for s in self.scripts:
            if s.ast:
                go(s.ast, False)
        self._stable = {x for x in good - bad if x[1] not in bad and x[1].startswith(("_", "#"))}
        return self._stable

    def captured(self):
        """(scope node, name) of the variables that some function other than the declaring one assigns"""
        if hasattr(self, "_cap"):
            return self._cap
        cap = self._cap = set()
        FN = ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression")
        SC = FN + ("BlockStatement", "ForStatement", "ForOfStatement", "ForInStatement", "CatchClause", "SwitchStatement", "Program", "StaticBlock")

        def names(q, acc):
            if q is None:
                return
            t = q["type"]
            if t == "Identifier":
                acc.add(q["name"])
            elif t == "AssignmentPattern":
                names(q["left"], acc)
            elif t == "RestElement":
                names(q["argument"], acc)
            elif t == "ObjectPattern":
                for x in q["properties"]:
                    names(x["argument"] if x["type"] == "RestElement" else x["value"], acc)
            elif t == "ArrayPattern":
                for x in q["elements"]:
                    names(x, acc)

        def kids(n):
            for k, v in n.items():
                if k in ("loc", "id"):
                    continue
                if isinstance(v, dict) and "type" in v:
                    yield v
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, dict) and "type" in x:
                            yield x

        def decls(n, acc):
            """declarations directly in the scope of n (var declarations count where they stand)"""
            for c in kids(n):
                t = c["type"]
                if t == "VariableDeclaration":
                    for d in c["declarations"]:
                        names(d["id_"], acc)
                elif t in ("FunctionDeclaration", "ClassDeclaration"):
                    acc.add(c["idn"])
                if t not in SC:
                    decls(c, acc)

        def assigned(n):
            acc = set()
            if n["type"] == "AssignmentExpression":
                names(n["left"], acc)
            elif n["type"] == "UpdateExpression":
                names(n["argument"], acc)
            elif n["type"] in ("ForOfStatement", "ForInStatement") and n["left"]["type"] != "VariableDeclaration":
                names(n["left"], acc)
            return acc

        def go(n, stack):
            if n["type"] in SC and not (n["type"] == "BlockStatement" and stack and stack[-1][0].get("body") is n and stack[-1][0]["type"] in FN):
                acc = set()
                if n["type"] in FN:
                    for q in n["params"]:
                        names(q, acc)
                    if n["body"]["type"] == "BlockStatement":
                        decls(n["body"], acc)
                else:
                    if n["type"] == "CatchClause" and n["param"]:
                        names(n["param"], acc)
                    decls(n, acc)
                stack = stack + [(n, acc)]
            for x in assigned(n):
                crossed = False
                for sc, acc in reversed(stack):
                    if x in acc:
                        if crossed:
                            cap.add((0 if sc["type"] == "Program" else sc["id"], x))
                        break
                    if sc["type"] in FN:
                        crossed = True
            for c in kids(n):
                go(c, stack)
        for s in self.scripts:
            if s.ast:
                go(s.ast, [])
        return cap

    def find(self, pred):
        return [s for s in self.scripts if s.ast and pred(s)]

    def names_in(self, n):
        """identifiers, property names (with a leading dot) and strings in a subtree"""
        r = set()

        def go(x):
            if isinstance(x, dict):
                t = x.get("type")
                if t == "MemberExpression" and not x["computed"]:
                    r.add("." + x["property"]["name"])
                    if x["object"].get("name") in ("globalThis", "self"):
                        r.add(x["property"]["name"])
                    go(x["object"])
                    return
                if t in ("Identifier", "PrivateIdentifier"):
                    r.add(x["name"])
                elif t == "Literal" and isinstance(x.get("value"), str):
                    r.add(x["value"])
                if isinstance(x.get("idn"), str):
                    r.add(x["idn"])
                for k, v in x.items():
                    if k != "loc":
                        go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(n)
        return r

    def callgraph(self):
        """({function node id: names it mentions}, {name: function node ids it may denote})"""
        if hasattr(self, "_cg"):
            return self._cg
        FN = ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression")
        ment, den = {}, {}
        for n in self.nodes:
            t = n["type"]
            if t in FN:
                ment[n["id"]] = self.names_in(n)
                if n.get("idn"):
                    den.setdefault(n["idn"], set()).add(n["id"])
            k = v = None
            if t in ("MethodDefinition", "Property", "PropertyDefinition"):
                k, v = n["key"], n["value"]
            elif t == "VariableDeclarator":
                k, v = n["id_"], n["init"]
            elif t == "AssignmentExpression":
                k, v = n["left"], n["right"]
                if k["type"] == "MemberExpression":
                    k = k["property"]
            if k is None or v is None:
                continue
            nm = k.get("name") if k["type"] in ("Identifier", "PrivateIdentifier") else k.get("value")
            if v["type"] in FN and isinstance(nm, str):
                den.setdefault(nm, set()).add(v["id"])
        for n in self.nodes:
            if n["type"] in ("ClassDeclaration", "ClassExpression"):
                ids = {m["value"]["id"] for m in n["body"]["body"] if m["type"] == "MethodDefinition" and m["kind"] == "constructor"}
                ids |= {x["id"] for m in n["body"]["body"] if m["type"] == "PropertyDefinition" and m["value"] for x in [m["value"]] if x["type"] in FN}
                for m in n["body"]["body"]:
                    if m["type"] == "PropertyDefinition" and m["value"] and m["value"]["type"] not in FN:
                        for i in ids:
                            ment[i] |= self.names_in(m["value"])
                nms = {n.get("idn")} | {k for k in ()}
                if isinstance(n.get("superClass"), dict):
                    for i in ids:
                        ment[i] |= self.names_in(n["superClass"])
                for nm in nms - {None}:
                    den.setdefault(nm, set()).update(ids)
        self._cg = ment, den
        return self._cg

    def touching(self, names):
        """functions that mention one of the names or may call one that does (methods of other scripts are judged where they are called)"""
        names = frozenset(names)
        c = self.__dict__.setdefault("_touch", {})
        if names in c:
            return c[names]
        ment, den = self.callgraph()
        both = names | {"." + x for x in names}
        hit = {f for f, m in ment.items() if m & both}
        while True:
            hot = {nm for nm, fs in den.items() if fs & hit}
            hotm = {}
            for nm, fs in den.items():
                for f in fs & hit:
                    hotm.setdefault(id(self.where[f]), set()).add("." + nm)
            new = {f for f, m in ment.items() if f not in hit and (m & hot or m & hotm.get(id(self.where[f]), set()))}
            if not new:
                break
            hit |= new
        c[names] = hit
        return hit


# ------------------------------------------------------------------------------------------------ terms

def mentions(t, f):
    if f(t):
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and mentions(x, f):
                return True
    return False


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        if t and t[0] == "old" and len(t) == 2 and t[1] == old:
            return t
        r = tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in t)
        return r if r != t else t
    return t


def depth(t):
    return 1 + max((depth(x) for x in t if isinstance(x, tuple)), default=0) if isinstance(t, tuple) else 0


def cut(t, n=14):
    if not isinstance(t, tuple) or t and t[0] in ("class", "fn", "this", "proto", "obj", "sc", "fsc", "resolver"):
        return t
    if n == 0:
        return ("…",)
    return tuple(cut(x, n - 1) if isinstance(x, tuple) else x for x in t)


def show(t, n=6):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if n == 0:
        return "…"
    k = t[0]
    if k == "c":
        return repr(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k in ("undef", "null", "G", "…"):
        return {"undef": "undefined", "null": "null", "G": "globalThis", "…": "…"}[k]
    if k in ("global", "arg"):
        return t[1]
    if k == "this":
        return "this"
    if k == "fld":
        return f"{show(t[1], n - 1)}.{t[2] if isinstance(t[2], str) else '[' + show(t[2], n - 1) + ']'}"
    if k == "call":
        return f"{show(t[1], n - 1) if isinstance(t[1], tuple) else t[1]}({', '.join(show(x, n - 1) for x in t[2])})"
    if k == "new":
        return f"new {show(t[1], n - 1) if isinstance(t[1], tuple) else t[1]}({', '.join(show(x, n - 1) for x in t[2])})"
    if k == "op":
        return f"({show(t[2], n - 1)} {t[1]} {show(t[3], n - 1)})"
    if k in ("not", "await", "typeof", "nullish", "old", "res", "rej", "elem", "neg"):
        return f"{k}({', '.join(show(x, n - 1) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))})"
    if k == "inst":
        return f"({show(t[1], n - 1)} instanceof {t[2]})"
    if k == "obj":
        return f"{{{t[1] if isinstance(t[1], str) else 'obj'}#{t[2][0]}}}"
    if k == "fn":
        return f"fn#{t[1]}"
    if k == "prom":
        return f"Promise<{t[1]} {show(t[2], n - 1)}>"
    if not isinstance(k, str):
        return "[" + ", ".join(show(x, n - 1) if isinstance(x, tuple) else str(x) for x in t) + "]"
    return k + "(" + ", ".join(show(x, n - 1) for x in t[1:] if isinstance(x, tuple)) + ")"


class St:
    __slots__ = ("vars", "heap", "facts", "trace", "epoch", "data")

    def __init__(self):
        self.vars, self.heap, self.facts, self.trace, self.epoch, self.data = {}, {}, {}, (), 0, ()

    def fork(self):
        s = St()
        s.vars, s.heap, s.facts, s.trace, s.epoch, s.data = dict(self.vars), dict(self.heap), dict(self.facts), self.trace, self.epoch, self.data
        return s

    def key(self):
        return (frozenset(self.vars.items()), frozenset(self.heap.items()), frozenset(self.facts.items()), self.trace, self.epoch, self.data)


def const(v):
    if v is None:
        return NULL
    if isinstance(v, bool):
        return ("b", v)
    return ("c", v)


FALSY = {UNDEF, NULL, FALSE, ("c", ""), ("c", 0), ("c", 0.0)}
OBJECTS = {"obj", "fn", "class", "proto", "G", "this", "new", "prom", "bound", "resolver", "regex", "arr"}
EXCL = {"ArrayBuffer", "Uint8Array", "Map", "Set", "Date", "RegExp", "ReadableStream", "URLSearchParams", "FormData", "Blob", "Headers", "Request", "URL", "Error"}
# methods of builtin values: they call no script code and do not throw on a value of their type
PURE_Q = {"has", "get", "includes", "indexOf", "startsWith", "endsWith", "match", "toLowerCase", "toUpperCase", "trim", "slice", "substring", "subarray", "split",
          "join", "concat", "toString", "charCodeAt", "at", "keys", "values", "entries", "find", "findIndex", "some", "every", "filter", "map", "reduce", "replace",
          "localeCompare", "encode", "test", "exec", "getTime", "lastIndexOf", "flat", "isPrototypeOf", "hasOwnProperty", "padStart", "padEnd", "charAt", "replaceAll"}
LISTED = {"includes", "indexOf", "some", "every", "find", "findIndex", "filter", "map"}
STRING = {"length", "constructor", "at", "charAt", "charCodeAt", "codePointAt", "concat", "endsWith", "includes", "indexOf", "isWellFormed", "lastIndexOf", "localeCompare", "match", "matchAll",
          "normalize", "padEnd", "padStart", "repeat", "replace", "replaceAll", "search", "slice", "split", "startsWith", "substr", "substring", "toLocaleLowerCase", "toLocaleUpperCase",
          "toLowerCase", "toString", "toUpperCase", "toWellFormed", "trim", "trimEnd", "trimStart", "valueOf", "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString"}
MUT = {"push", "pop", "shift", "unshift", "splice", "set", "delete", "clear", "add", "sort", "reverse", "fill", "append"}
PURE_FN = {"String", "Number", "Boolean", "Array.isArray", "Object.keys", "Object.values", "Object.entries", "Object.assign", "Object.freeze", "Object.create", "ArrayBuffer.isView",
           "Math.min", "Math.max", "Math.trunc", "Math.floor", "Math.random", "Number.isInteger", "Number.isFinite", "Number.isNaN", "isNaN", "parseInt", "parseFloat",
           "Promise.resolve", "Promise.reject", "Symbol", "Date.now", "Object.defineProperty", "Object.fromEntries", "encodeURIComponent", "Object.is", "Reflect.ownKeys",
           "console.log", "console.error", "console.warn", "console.info", "console.debug", "Math.round", "Math.ceil", "Math.abs", "Array.from", "String.fromCharCode",
           "Number.isSafeInteger", "Object.getPrototypeOf", "Array.of"}
CANON = {"String", "Number", "Boolean", "Array.isArray", "Object.keys", "ArrayBuffer.isView", "Math.min", "Math.max", "Math.trunc", "Math.floor", "Number.isInteger", "Number.isFinite",
         "Number.isNaN", "isNaN", "encodeURIComponent", "Object.is", "Number.isSafeInteger"}
PURE_NEW = {"Map", "Set", "WeakMap", "Uint8Array", "ArrayBuffer", "TextEncoder", "TextDecoder", "Error", "TypeError", "RangeError", "Date", "DOMException", "Array", "Object", "WeakSet",
            "SyntaxError", "DataView", "Proxy", "AggregateError"}


class Engine:
    def __init__(self, prog, rule=None, max_states=60000, max_inline=14, nullable=None):
        self.p, self.rule = prog, rule
        self.max_states, self.max_inline, self.nstates = max_states, max_inline, 0
        self.seen_fns, self.ftypes, self.parent = set(), {}, {}
        self.callpath, self.this, self.cls, self.pure_of = (), [], [], {}
        self.nullable_hook = nullable
        self.base = None
        self.isasync = []
        self.closed, self.made = set(), set()

    # ---- program setup: run the top level of scripts in order
    def setup(self, scripts, st=None):
        st = st or St()
        rule, self.rule = self.rule, None
        for s in scripts:
            sc = TOP
            self.parent[sc] = None
            out = self.block_body(s.ast["body"], st, sc, hoist_global=True)
            ns = [c for c in out if c[0] == "n"]
            if not ns:
                raise Budget(f"script {s} has no normal end")
            st = ns[0][2]
            st.facts, st.trace = {}, ()
        self.rule = rule
        self.base = st
        return st

    # ---- results
    def emit(self, st, ev):
        st.trace = st.trace + (ev,)

    def event(self, st, kind, node, *a):
        if kind == "set" and isinstance(a[1], str):
            self.learn(a[0], a[1], a[2])
        if self.rule is not None and hasattr(self.rule, "event"):
            self.rule.event(self, st, kind, node, *a)

    def learn(self, obj, f, v):
        c = self.type_of(obj)
        if c is None:
            return
        d = self.type_of(v)
        if d is not None:
            self.ftypes.setdefault((c, f), set()).add(d)

    def type_of(self, t):
        k = t[0]
        if k == "this":
            return t[1]
        if k == "obj" and isinstance(t[1], tuple) and t[1] and t[1][0] == "class":
            return t[1]
        if k == "obj":
            return t[1] if isinstance(t[1], str) else None
        if k == "new" and isinstance(t[1], str):
            return t[1]
        if k == "fld":
            c = self.type_of(t[1])
            s = self.ftypes.get((c, t[2])) if c is not None else None
            return next(iter(s)) if s and len(s) == 1 else None
        if k == "old":
            return self.type_of(t[1])
        if k == "typed":
            return t[2]
        if k == "resolver":
            return "Resolver"
        return None

    def run(self, fn, this=UNDEF, args=None, st=None, argnames=True):
        """all paths of a function value; [(kind, value, state)] with kind return|throw"""
        if st is None:
            st = (self.base or St()).fork()
            self.bump(st, {"id": -1})
        node = self.p.nodes[fn[1]]
        if args is None:
            args = [("arg", self.pname(p, i)) if p["type"] != "RestElement" else ("arg", "rest") for i, p in enumerate(node["params"])]
            args = [a if p["type"] != "RestElement" else ("spread", a) for a, p in zip(args, node["params"])]
        out = []
        self.exits = []
        for s, v in self.enter(st, fn, this, args, node, out, root=True):
            self.exits.append(("return", v, s))
        for k, v, s in out:
            self.exits.append((k, v, s))
        return self.exits

    def pname(self, p, i):
        if p["type"] == "AssignmentPattern":
            return self.pname(p["left"], i)
        return p.get("name") or f"arg{i}"

    # ---- scopes
    def declare(self, st, sc, name, v):
        st.vars[(sc, name)] = v

    def lookup_scope(self, st, sc, name):
        while sc is not None:
            if (sc, name) in st.vars:
                return sc
            sc = self.parent.get(sc)
        return None

    def read_var(self, st, sc, name):
        if name == "undefined":
            return UNDEF
        if name == "NaN":
            return ("global", "NaN")
        if name == "globalThis":
            return G
        s = self.lookup_scope(st, sc, name)
        if s is not None:
            return st.vars[(s, name)]
        if name in ("self", "global"):
            return G
        return self.read_prop(st, G, name)

    def write_var(self, st, sc, name, v, node):
        s = self.lookup_scope(st, sc, name)
        if s is None:
            self.set_prop(st, G, name, v, node)
        else:
            st.vars[(s, name)] = v
            self.event(st, "var", node, name, v, s)

    # ---- objects
    def is_stable(self, base, prop):
        if not isinstance(prop, str):
            return False
        c = self.type_of(base)
        return isinstance(c, tuple) and c[0] == "class" and (c[1], prop) in self.p.stable()

    def ver(self, st, base, prop=None):
        if self.is_stable(base, prop):
            return "s"
        return st.heap.get((base, "$v"), st.epoch if base[0] not in ("c",) else 0)

    def read_prop(self, st, base, prop):
        """value of a data property (methods and builtins included), no effects"""
        if (base, prop) in st.heap:
            return st.heap[(base, prop)]
        if base == G:
            return ("global", prop) if not self.mutable_global(prop) else ("fld", G, prop, st.epoch)
        c = None
        if base[0] == "class":
            if prop == "prototype":
                return ("proto", base)
            d = self.superclass(st, base)
            while d is not None:
                if (d, prop) in st.heap:
                    return st.heap[(d, prop)]
                d = self.superclass(st, d)
        elif base[0] == "proto":
            c = base[1]
        else:
            c = self.type_of(base)
        while isinstance(c, tuple) and c[0] == "class":
            if (("proto", c), prop) in st.heap:
                return st.heap[(("proto", c), prop)]
            c = self.superclass(st, c)
        if base[0] == "obj" and base[1] == "Array" and prop == "length" and (base, "$items") in st.heap and (base, "$v") not in st.heap:
            items = st.heap[(base, "$items")]
            if not any(x[0] == "spread" for x in items):
                return ("c", len(items))
        if base[0] == "obj" and base[1] in ("Object",) and isinstance(prop, str):
            if not st.heap.get((base, "$open")):
                return UNDEF
        if base[0] == "global" and isinstance(prop, str):
            return ("global", base[1] + "." + prop)
        if base[0] == "c" and isinstance(base[1], str) and prop == "length":
            return ("c", len(base[1]))
        if base[0] == "c" and isinstance(base[1], str) and isinstance(prop, str) and prop not in STRING and not prop.startswith("_") and not prop.isdigit():
            return UNDEF
        h = getattr(self.rule, "alias", None)
        if h:
            r = h(self, st, base, prop)
            if r is not None:
                return r
        return cut(("fld", base, prop, self.ver(st, base, prop)))

    def mutable_global(self, name):
        return name.startswith("__") and name in self.written_globals()

    def written_globals(self):
        if not hasattr(self.p, "_wg"):
            w = set()
            for n in self.p.nodes:
                if n["type"] in ("AssignmentExpression", "UpdateExpression"):
                    l = n.get("left") or n.get("argument")
                    if l["type"] == "MemberExpression" and not l["computed"] and l["object"].get("name") == "globalThis":
                        w.add(l["property"]["name"])
            self.p._wg = w
        return self.p._wg

    def superclass(self, st, c):
        return st.heap.get((c, "$super"))

    def getter(self, st, base, prop):
        c = base if base[0] == "class" else base[1] if base[0] == "proto" else self.type_of(base)
        if base[0] == "class" and (base, "get " + str(prop)) in st.heap:
            return st.heap[(base, "get " + str(prop))]
        while isinstance(c, tuple) and c[0] == "class":
            g = st.heap.get((("proto", c), "get " + str(prop)))
            if g:
                return g
            c = self.superclass(st, c)
        return st.heap.get((base, "get " + str(prop)))

    def set_prop(self, st, base, prop, v, node):
        self.event(st, "set", node, base, prop, v)
        names = getattr(self.rule, "relevant", None)
        if names is not None and isinstance(prop, str) and base[0] in ("obj", "this", "typed") and isinstance(self.type_of(base), tuple) and prop not in names and prop != "length" and v[0] not in ("fn", "resolver"):
            v = ("any", node["id"])
        if prop == "length":
            st.heap.pop((base, "$items"), None)
            self.touch(st, base, node)
        st.heap[(base, prop)] = v
        if prop != "$v" and not isinstance(prop, str):
            self.touch(st, base, node)

    def touch(self, st, base, node):
        """the contents of a collection changed"""
        v = (node["id"], self.callpath[-2:])
        if st.heap.get((base, "$v")) == v:
            v = v + ("again",)      # re-executed in a loop: the earlier state of the collection is not this one
        st.heap[(base, "$v")] = v
        for k in [k for k in st.heap if k[0] == base and k[1] in ("length", "size")]:
            del st.heap[k]

    def bump(self, st, node):
        """other code may have run: forget what it can have changed"""
        self.event(st, "bump", node)
        e = (node["id"], self.callpath[-2:])
        if st.epoch == e:
            e = e + ("again",)
            self.forget(st, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[3] == e)
        st.epoch = e
        keep = getattr(self.rule, "survives", None)
        gone = [k for k in st.heap if self.shared(st, k[0], k[1]) and not (keep and keep(self, st, k[0], k[1], st.heap[k]))]
        # containers that are reachable from shared objects
        esc, work = set(), [v for k, v in st.heap.items() if self.shared(st, k[0], k[1]) or self.is_stable(k[0], k[1])]
        while work:
            v = work.pop()
            if v[:1] == ("obj",) and isinstance(v[1], str) and v[1] != "Promise" and v not in esc:
                esc.add(v)
                work += [w if k[1] != "$items" else x for k, w in st.heap.items() if k[0] == v for x in (w if k[1] == "$items" else (0,))]
        for k in gone:
            del st.heap[k]
        for k in [k for k in st.heap if k[0] in esc and not (keep and keep(self, st, k[0], k[1], st.heap[k]))]:
            if k[1] == "$items" or k[0][1] != "Array":
                del st.heap[k]
        for b in esc:
            if keep and keep(self, st, b, "$open", TRUE):
                continue
            if b[1] != "Array" or (b, "$items") not in st.heap:
                st.heap[(b, "$v")] = e
                st.heap[(b, "$open")] = TRUE
                for k in [k for k in st.heap if k[0] == b and k[1] in ("length", "size")]:
                    del st.heap[k]
        cap = self.p.captured()
        for k, v in st.vars.items():
            if (k[0][1], k[1]) in cap:
                st.vars[k] = ("cvar", k[0], k[1], e)

    def shared(self, st, b, prop):
        if b[0] in ("class", "proto"):
            return False
        if b == G:
            return prop in self.written_globals() and prop.startswith("__") and not (isinstance(prop, str) and self.static_global(prop))
        if b[0] == "global":
            return False
        if self.is_stable(b, prop):
            return False
        if b[0] == "obj":
            if isinstance(b[1], tuple):
                return True         # instances are reachable from anywhere
            if prop.startswith("$") if isinstance(prop, str) else False:
                return False
            return (b, "$own") not in st.heap and False
        return True

    def static_global(self, name):
        """assigned a function at the top level of a script only"""
        b = self.base.heap.get((G, name)) if self.base else None
        return b is not None and b[0] in ("fn", "class")

    def forget(self, st, f):
        for k in [k for k in st.facts if mentions(k, f)]:
            del st.facts[k]

    def fresh(self, st, t):
        """the result of re-executing a site replaces the older one"""
        if t not in self.made:
            self.made.add(t)
            return t
        def hit(x):
            return x == t
        old = ("old", t)
        for m in (st.vars, st.heap):
            for k in list(m):
                if mentions(k, hit):
                    v = m.pop(k)
                    if m is st.vars or not mentions(k[0], hit):
                        m[subst(k, t, old)] = subst(v, t, old)
                elif mentions(m[k], hit):
                    m[k] = subst(m[k], t, old)
        for k in [k for k in st.facts if mentions(k, hit)]:
            del st.facts[k]
        return t

    # ---- facts
    def norm(self, t):
        """(term, polarity) of a boolean question"""
        pol = True
        while True:
            if t[0] == "not":
                t, pol = t[1], not pol
                continue
            if t[0] == "op" and t[1] == "!==":
                t, pol = ("op", "===") + t[2:], not pol
                continue
            if t[0] == "op" and t[1] == "!=":
                t, pol = ("op", "==") + t[2:], not pol
                continue
            break
        if t[0] == "op" and t[1] in ("===", "=="):
            a, b = t[2], t[3]
            if a[0] in ("c", "b", "null", "undef") and b[0] not in ("c", "b", "null", "undef"):
                a, b = b, a
            if t[1] == "==" and b in (NULL, UNDEF):
                return ("nullish", a), pol
            if a[0] == "typeof" and b == ("c", "undefined"):
                return ("op", "===", a[1], UNDEF), pol
            if b == TRUE and a[0] in ("op", "not", "inst"):
                x, p2 = self.norm(a)
                return x, pol == p2
            if b == FALSE and a[0] in ("op", "not", "inst"):
                x, p2 = self.norm(a)
                return x, pol != p2
            if self.is_len(a) and b == ("c", 0):
                return a, not pol
            return ("op", "===", a, b), pol
        if t[0] == "op" and t[1] in ("<", "<=", ">", ">="):
            o, a, b = t[1], t[2], t[3]
            if o in (">", ">="):
                o, a, b = {">": "<", ">=": "<="}[o], b, a
            if a == ("c", 0) and o == "<" and self.is_len(b):
                return b, pol
            if a == ("c", 1) and o == "<=" and self.is_len(b):
                return b, pol
            if o == "<=" and b == ("c", 0) and self.is_len(a) or o == "<" and b == ("c", 1) and self.is_len(a):
                return a, not pol
            if o == "<=":
                return ("op", "<", b, a), not pol
            return ("op", o, a, b), pol
        if t[0] == "call" and t[1] == "Boolean" and len(t[2]) == 1:
            x, p2 = self.norm(t[2][0])
            return x, pol == p2
        return t, pol

    def is_len(self, t):
        return t[0] == "fld" and t[2] in ("length", "size", "byteLength")

    def truth(self, st, t):
        t, pol = self.norm(t)
        r = self.truth0(st, t)
        return None if r is None else (r == pol)

    def truth0(self, st, t):
        k = t[0]
        if t in st.facts:
            return st.facts[t]
        if t in FALSY:
            return False
        if k in ("c", "b", "typed") or k in OBJECTS:
            return True
        if k == "global":
            return True if self.known_global(t[1]) else None
        if k == "nullish":
            x = t[1]
            if x in (NULL, UNDEF):
                return True
            if x[0] in ("c", "b") or x[0] in OBJECTS or x[0] in ("op", "not", "typeof", "tmpl"):
                return False
            if x[0] == "call" and x[1] in ("String", "Number", "Boolean"):
                return False
            if self.truth0(st, x) is True:
                return False
            for f, v in st.facts.items():
                if v is True and f[0] == "op" and f[1] == "===" and f[2] == x and f[3][0] in ("c", "b", "null", "undef"):
                    return f[3] in (NULL, UNDEF)
                if v is True and f[0] == "inst" and f[1] == x:
                    return False
            if st.facts.get(("op", "===", x, NULL)) is False and st.facts.get(("op", "===", x, UNDEF)) is False:
                return False
            return None
        if k == "inst":
            return self.inst(st, t[1], t[2])
        if k == "op" and t[1] == "===":
            a, b = t[2], t[3]
            if a == b and a[0] != "global":
                return True
            ca, cb = a[0] in ("c", "b", "null", "undef"), b[0] in ("c", "b", "null", "undef")
            if ca and cb:
                return a == b
            if a[0] in OBJECTS and cb or b in (NULL, UNDEF) and (a[0] in ("op", "not", "typeof", "tmpl") or a[0] == "call" and a[1] in ("String", "Number", "Boolean")):
                return False
            if a[0] in OBJECTS and b[0] in OBJECTS and a[0] != b[0] and "this" not in (a[0], b[0]):
                return False
            if a[0] == "typeof":
                return self.typ(st, a[1], b)
            if cb:
                for f, v in st.facts.items():
                    if v is True and f[0] == "op" and f[1] == "===" and f[2] == a and f[3] != b and f[3][0] in ("c", "b", "null", "undef"):
                        return False
                tr = self.truth0(st, a)
                if tr is True and b in FALSY:
                    return False
                if tr is False and b not in FALSY:
                    return False
                if st.facts.get(("nullish", a)) is False and b in (NULL, UNDEF):
                    return False
                if st.facts.get(("nullish", a)) is True and b not in (NULL, UNDEF):
                    return False
            return None
        if k == "op" and t[1] == "<":
            a, b = t[2], t[3]
            if a[0] == "c" and b[0] == "c" and not isinstance(a[1], str) and not isinstance(b[1], str):
                return a[1] < b[1]
            return None
        if k == "call" and t[1] == "Array.isArray" and t[2][0][0] in OBJECTS:
            x = t[2][0]
            return x[0] == "obj" and x[1] == "Array" or x[0] == "arr"
        for f, v in st.facts.items():
            if v is True and f[0] == "inst" and f[1] == t:
                return True
            if v is True and f[0] == "op" and f[1] == "===" and f[2] == t and f[3][0] in ("c", "b", "null", "undef"):
                return f[3] not in FALSY
            if v is True and f[0] == "op" and f[1] == "===" and f[2] == ("typeof", t) and f[3] == ("c", "function"):
                return True
        if st.facts.get(("nullish", t)) is True:
            return False
        return None

    def known_global(self, n):
        return n.split(".")[0] in PURE_NEW or n in PURE_FN or n.split(".")[0] in ("Promise", "Math", "JSON", "Object", "Number", "String", "Symbol", "console", "Reflect")

    def typ(self, st, x, want):
        k = x[0]
        w = want[1] if want[0] == "c" else None
        if k == "c":
            return ("string" if isinstance(x[1], str) else "number") == w
        if k == "b":
            return w == "boolean"
        if k == "undef":
            return w == "undefined"
        if k == "null":
            return w == "object"
        if k in ("fn", "class", "bound", "resolver"):
            return w == "function"
        if k in ("obj", "new", "this", "prom", "arr", "G", "proto"):
            return w == "object"
        if k == "tmpl" or k == "call" and x[1] == "String" or k == "typeof":
            return w == "string"
        for f, v in st.facts.items():
            if v is True and f[0] == "op" and f[1] == "===" and f[2] == ("typeof", x):
                return f[3] == want
            if v is True and f[0] == "op" and f[1] == "===" and f[2] == x and f[3][0] in ("c", "b", "null", "undef"):
                return self.typ(st, f[3], want)
            if v is True and f[0] == "inst" and f[1] == x and w != "object":
                return False
        return None

    def inst(self, st, x, name):
        if x[0] in ("c", "b", "null", "undef", "op", "not", "typeof", "tmpl"):
            return False
        c = self.type_of(x) if x[0] in ("obj", "new", "this", "typed") else None
        if c is not None:
            while c is not None:
                if c == name or self.cname(c) == name:
                    return True
                c = self.superclass(st, c) if isinstance(c, tuple) else ("Error" if c in ("TypeError", "RangeError", "SyntaxError", "DOMException") and name == "Error" else None)
                if c == name:
                    return True
            return False
        if x[0] in ("fn", "class", "prom", "bound"):
            return x[0] == "prom" and name == "Promise" or None if x[0] != "prom" else name == "Promise"
        if st.facts.get(("nullish", x)) is True or self.known_falsy(st, x):
            return False
        for f, v in st.facts.items():
            if v is True and f[0] == "inst" and f[1] == x and f[2] != name and f[2] in EXCL and name in EXCL:
                return False
            if v is True and f[0] == "op" and f[1] == "===" and f[2] == ("typeof", x) and f[3] != ("c", "object"):
                return False if f[3] != ("c", "function") else None
        return None

    def known_falsy(self, st, x):
        return st.facts.get(x) is False

    def cname(self, c):
        return self.p.nodes[c[1]].get("idn") if isinstance(c, tuple) else c

    def assume(self, st, t, val):
        """st under the answer (a fork is the caller's business); None if it contradicts the path"""
        r = self.truth(st, t)
        if r is not None:
            return st if r == val else None
        t, pol = self.norm(t)
        v = val if pol else not val
        st.facts[t] = v
        if t[0] == "op" and t[1] == "===" and v and t[3][0] not in ("c", "b", "null", "undef") and t[2][0] not in ("c", "b"):
            pass
        return st

    def split(self, st, t):
        """[(state, bool)]"""
        r = self.truth(st, t)
        if r is not None:
            return [(st, r)]
        a, b = self.assume(st.fork(), t, True), self.assume(st, t, False)
        return [(s, v) for s, v in ((a, True), (b, False)) if s is not None]

    # ---- statements: completions (kind, value, state); kind: n, return, throw, break:L, continue:L
    def merge(self, sts):
        if len(sts) < 2:
            return sts
        out, seen = [], set()
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        most = getattr(self.rule, "max_join", None) if self.rule is not None else None
        if most and len(out) > most:
            out = self.join(out)
        self.nstates += len(out)
        if self.nstates > self.max_states:
            raise Budget(f"more than {self.max_states} abstract states")
        return out

    def join(self, sts):
        """property simulation: states on which the rule agrees (same obligations, same kept facts) continue as one, with whatever else differs unknown"""
        g, keep = {}, getattr(self.rule, "keep_fact", lambda f: False)
        group = getattr(self.rule, "group", None)
        across = getattr(self.rule, "join_epochs", False)
        for s in sts:
            k = (None if across else s.epoch, s.data, frozenset((f, v) for f, v in s.facts.items() if keep(f)), group(self, s) if group else None)
            g.setdefault(k, []).append(s)
        res = []
        for ss in g.values():
            o = ss[0]
            if len({s.epoch for s in ss}) > 1:
                es = frozenset(x for s in ss for x in (s.epoch[1] if isinstance(s.epoch, tuple) and s.epoch[0] == "join" else (s.epoch,)))
                for s in ss:
                    s.epoch = ("join", es)
                    self.forget(s, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and t[3] == ("join", es))
            if len(ss) > 1:
                new = set()
                for m in ("vars", "heap"):
                    d = getattr(o, m)
                    keys = {k for s in ss for k in getattr(s, m)}
                    for k in keys:
                        vs = {getattr(s, m).get(k) for s in ss}
                        if len(vs) > 1:
                            if m == "heap" and k[1] == "$items":
                                d.pop(k, None)
                                continue
                            if m == "vars" and None in vs and all(v is None or v[0] != "joined" for v in vs):
                                pass
                            j = ("joined", k)
                            new.add(j)
                            d[k] = j if m == "vars" or k[1] != "$open" else TRUE
                o.facts = {f: v for f, v in o.facts.items() if all(s.facts.get(f) == v for s in ss) and not (new and mentions(f, lambda t: t in new))}
                for s in ss[1:]:
                    if s.trace != o.trace:
                        o.trace = o.trace[:len(os.path.commonprefix([o.trace, s.trace]))]
            res.append(o)
        return res

    def hoist(self, body, st, sc, hoist_global=False):
        for n in body:
            if n["type"] == "FunctionDeclaration":
                self.closes(sc)
                f = ("fn", n["id"], sc)
                self.bind_name(st, sc, n, f, hoist_global)

    def bind_name(self, st, sc, n, f, g):
        name = self.fname(n)
        st.vars[(sc, name)] = f
        if g:
            st.heap[(G, name)] = f

    def fname(self, n):
        return n["idn"] if "idn" in n else None

    def block_body(self, body, st, sc, hoist_global=False):
        self.hoist(body, st, sc, hoist_global)
        sts, outs = [st], []
        for n in body:
            nxt = []
            for s in sts:
                for c in self.stmt(n, s, sc):
                    if c[0] == "n":
                        nxt.append(c[2])
                    else:
                        outs.append(c)
            if self.rule is not None and len(nxt) > 1:
                self.tidy(nxt)
            sts = self.merge(nxt)
            if not sts:
                break
        return outs + [("n", UNDEF, s) for s in sts]

    def tidy(self, sts):
        keep = getattr(self.rule, "keep_fact", None)
        if not keep:
            return
        for s in sts:
            for f in [f for f in s.facts if not keep(f)]:
                del s.facts[f]

    def scope(self, node, parent):
        sc = ("sc", node["id"], self.callpath)
        self.parent[sc] = parent
        return sc

    def leave(self, cs, sc):
        """drop the variables of a finished scope unless a closure still sees them"""
        for c in cs:
            st = c[2]
            ks = [k for k in st.vars if k[0] == sc]
            if not ks:
                continue
            if not self.captured(st, sc, c[1]):
                for k in ks:
                    del st.vars[k]
        return cs

    def closes(self, sc):
        """a closure over this scope was made"""
        while sc is not None and sc not in self.closed:
            self.closed.add(sc)
            sc = self.parent.get(sc)

    def captured(self, st, sc, val):
        if sc not in self.closed:
            return False
        def hit(t):
            if isinstance(t, tuple) and len(t) == 3 and t[0] in ("fn", "class") and isinstance(t[2], tuple):
                s = t[2]
                while s is not None:
                    if s == sc:
                        return True
                    s = self.parent.get(s)
            return False
        return mentions(val, hit) or any(mentions(v, hit) for k, v in st.vars.items() if k[0] != sc) or any(mentions(v, hit) or mentions(k[0], hit) for k, v in st.heap.items())

    def stmt(self, n, st, sc):
        t = n["type"]
        m = getattr(self, "s_" + t, None)
        if m is None:
            raise Budget(f"statement {t} at {self.p.line(n['id'])} is not modelled")
        return m(n, st, sc)

    def ex(self, n, st, sc, f):
        """evaluate, then f(state, value) -> completions"""
        out = []
        res = []
        for s, v in self.E(n, st, sc, out):
            res += f(s, v)
        return out + res

    def s_ExpressionStatement(self, n, st, sc):
        return self.ex(n["expression"], st, sc, lambda s, v: [("n", v, s)])

    def s_EmptyStatement(self, n, st, sc):
        return [("n", UNDEF, st)]

    s_DebuggerStatement = s_EmptyStatement

    def s_FunctionDeclaration(self, n, st, sc):
        return [("n", UNDEF, st)]

    def s_BlockStatement(self, n, st, sc):
        c = self.scope(n, sc)
        return self.leave(self.block_body(n["body"], st, c), c)

    def s_ReturnStatement(self, n, st, sc):
        if n["argument"] is None:
            return [("return", UNDEF, st)]
        return self.ex(n["argument"], st, sc, lambda s, v: [("return", v, s)])

    def s_ThrowStatement(self, n, st, sc):
        def f(s, v):
            self.event(s, "throw", n, v)
            return [("throw", v, s)]
        return self.ex(n["argument"], st, sc, f)

    def s_BreakStatement(self, n, st, sc):
        return [("break:" + (n["label"]["name"] if n["label"] else ""), UNDEF, st)]

    def s_ContinueStatement(self, n, st, sc):
        return [("continue:" + (n["label"]["name"] if n["label"] else ""), UNDEF, st)]

    def s_LabeledStatement(self, n, st, sc):
        l = n["label"]["name"]
        n["body"]["_label"] = l
        out = []
        for c in self.stmt(n["body"], st, sc):
            out.append(("n", UNDEF, c[2]) if c[0] == "break:" + l else c)
        return out

    def s_IfStatement(self, n, st, sc):
        def f(s, b):
            if b:
                return self.stmt(n["consequent"], s, sc)
            return self.stmt(n["alternate"], s, sc) if n["alternate"] else [("n", UNDEF, s)]
        return self.cond(n["test"], st, sc, f)

    def cond(self, n, st, sc, f):
        out, res = [], []
        for s, v in self.E(n, st, sc, out):
            for s2, b in self.split(s, v):
                self.event(s2, "test", n, v, b)
                res += f(s2, b)
        return out + res

    def s_VariableDeclaration(self, n, st, sc):
        sts, outs = [st], []
        for d in n["declarations"]:
            nxt = []
            for s in sts:
                if d["init"] is None:
                    self.bind_pat(d["id_"], UNDEF, s, sc, n, outs, decl=True)
                    nxt.append(s)
                    continue
                for s2, v in self.E(d["init"], s, sc, outs):
                    for s3 in self.bind_pat(d["id_"], v, s2, sc, n, outs, decl=True):
                        nxt.append(s3)
            sts = nxt
        return outs + [("n", UNDEF, s) for s in sts]

    def s_ClassDeclaration(self, n, st, sc):
        out = []
        res = []
        for s, v in self.E_ClassExpression(n, st, sc, out):
            s.vars[(sc, self.fname(n))] = v
            res.append(("n", UNDEF, s))
        return out + res

    def loop(self, n, sc, heads, test, body, update):
        """heads: states before the test; test(st) -> [(state, bool)] plus abrupt list; body(st) -> completions; update(st) -> states"""
        lab = n.get("_label")
        seen, outs, ends, work, rounds = set(), [], [], list(heads), 0
        while work:
            s = work.pop()
            s.trace = self.squash(s.trace)
            if self.rule is not None:
                self.tidy([s])
                if rounds > 2:
                    self.collect(s)
            k = s.key()
            if k in seen:
                continue
            seen.add(k)
            self.nstates += 1
            rounds += 1
            if rounds > 3000 or self.nstates > self.max_states:
                raise Budget(f"loop at {self.p.line(n['id'])} does not converge")
            if rounds > 40 and self.widen_loop(n, s):
                k = s.key()
                if k in seen:
                    continue
                seen.add(k)
            ab = []
            for s2, b in test(s, ab):
                if not b:
                    ends.append(s2)
                    continue
                for c in body(s2):
                    if c[0] in ("n", "continue:", "continue:" + (lab or "\0")):
                        work += update(c[2], outs)
                    elif c[0] in ("break:", "break:" + (lab or "\0")):
                        ends.append(c[2])
                    else:
                        outs.append(c)
            outs += ab
        return outs + [("n", UNDEF, s) for s in self.merge(ends)]

    def collect(self, st):
        """drop what nothing refers to any more: temporaries of earlier rounds"""
        def parts(t, acc):
            if isinstance(t, tuple):
                if t and t[0] in ("obj", "old", "elem", "new", "typed"):
                    if t in acc:
                        return
                    acc.add(t)
                for x in t:
                    if isinstance(x, tuple):
                        parts(x, acc)
        live = set()
        base = self.base.heap if self.base else {}
        for v in st.vars.values():
            parts(v, live)
        parts(st.data, live)
        rest = [(k, v) for k, v in st.heap.items() if base.get(k) is not v]

        def temp(b):
            acc = set()
            parts(b, acc)
            return acc
        tb = {}
        for k, v in rest:
            if k[0] not in tb:
                tb[k[0]] = temp(k[0])
        todo, more = rest, True
        while more:
            more, nxt = False, []
            for k, v in todo:
                if tb[k[0]] <= live:
                    n = len(live)
                    parts(v, live)
                    more |= len(live) != n
                else:
                    nxt.append((k, v))
            if len(nxt) == len(todo):
                break
            todo = nxt
            more = True
        for k, v in todo:
            del st.heap[k]
        for f in list(st.facts):
            acc = set()
            parts(f, acc)
            if not acc <= live:
                del st.facts[f]

    def widen_loop(self, n, st):
        """variables that the loop assigns hold anything; facts about what it computed are dropped"""
        names = self.assigned(n)
        ch = False
        for (sc, nm), v in list(st.vars.items()):
            if nm in names and v[0] in ("call", "op", "fld", "old", "c", "counter", "elem", "typed", "new", "widened", "cvar"):
                w = ("widened", n["id"], nm)
                if v != w:
                    st.vars[(sc, nm)] = w
                    ch = True
        def hit(t):
            return isinstance(t, tuple) and t[:2] == ("widened", n["id"]) or isinstance(t, tuple) and t[:1] == ("old",)
        fs = [k for k in st.facts if mentions(k, hit)]
        for k in fs:
            del st.facts[k]
        return ch or bool(fs)

    def squash(self, trace):
        cnt, out = {}, []
        for ev in reversed(trace):
            cnt[ev] = cnt.get(ev, 0) + 1
            if cnt[ev] <= 2:
                out.append(ev)
        return tuple(reversed(out))

    def s_WhileStatement(self, n, st, sc):
        def test(s, ab):
            r = []
            for s2, v in self.E(n["test"], s, sc, ab):
                for s3, b in self.split(s2, v):
                    self.event(s3, "test", n["test"], v, b)
                    r.append((s3, b))
            return r
        return self.loop(n, sc, [st], test, lambda s: self.stmt(n["body"], s, sc), lambda s, o: [s])

    def s_DoWhileStatement(self, n, st, sc):
        first = {id(st)}

        def test(s, ab):
            if id(s) in first:
                first.clear()
                return [(s, True)]
            r = []
            for s2, v in self.E(n["test"], s, sc, ab):
                r += self.split(s2, v)
            return r
        return self.loop(n, sc, [st], test, lambda s: self.stmt(n["body"], s, sc), lambda s, o: [s])

    def s_ForStatement(self, n, st, sc):
        c = self.scope(n, sc)
        outs, heads = [], [st]
        if n["init"]:
            if n["init"]["type"] == "VariableDeclaration":
                cs = self.s_VariableDeclaration(n["init"], st, c)
                heads = [x[2] for x in cs if x[0] == "n"]
                outs += [x for x in cs if x[0] != "n"]
            else:
                heads = [s for s, _ in self.E(n["init"], st, c, outs)]
        # the counter of a counting loop: any value
        for h in heads:
            for name in self.assigned(n["update"]) if n["update"] else ():
                s = self.lookup_scope(h, c, name)
                if s is not None and h.vars[(s, name)][0] == "c":
                    h.vars[(s, name)] = ("counter", n["id"], name)

        def test(s, ab):
            if n["test"] is None:
                return [(s, True)]
            r = []
            for s2, v in self.E(n["test"], s, c, ab):
                self.event(s2, "looptest", n, v)
                if mentions(v, lambda x: isinstance(x, tuple) and x[:1] == ("counter",)):
                    f = s2.fork()
                    self.forget(f, lambda x: isinstance(x, tuple) and x[:1] == ("counter",))
                    it = self.over(n, v)
                    if v[0] == "op" and v[1] == "<" and v[2][:1] == ("counter",) and v[3] == ("c", 0):
                        r.append((f, False))
                        continue
                    if it:
                        self.event(f, "iloopend", n, it[0])
                        self.event(s2, "ielem", n, it[0], it[1])
                    r += [(s2, True), (f, False)]
                else:
                    r += self.split(s2, v)
            return r

        def upd(s, o):
            if n["update"] is None:
                return [s]
            names = self.assigned(n["update"])
            r = []
            for s2, _ in self.E(n["update"], s, c, o):
                for name in names:
                    w = self.lookup_scope(s2, c, name)
                    if w is not None and (s2.vars[(w, name)][0] in ("c", "op", "counter")):
                        s2.vars[(w, name)] = ("counter", n["id"], name)
                self.forget(s2, lambda x: isinstance(x, tuple) and x[:1] == ("counter",))
                r.append(s2)
            return r
        res = self.loop(n, sc, heads, test, lambda s: self.stmt(n["body"], s, c), upd)
        return self.leave(outs + res, c)

    def over(self, n, v):
        """(collection, counter) of a loop that counts over all indices of a collection"""
        i, u = n["init"], n["update"]
        if not i or not u or i["type"] != "VariableDeclaration":
            return None
        zero = {d["id_"].get("name") for d in i["declarations"] if d["init"] and d["init"].get("value") == 0}
        if v[0] == "op" and v[1] == ">" and v[2][0] != "counter":
            v = ("op", "<", v[3], v[2])
        if v[0] == "op" and v[1] == "<" and v[2][:1] == ("counter",) and v[2][2] in zero and self.is_len(v[3]) and u["type"] == "UpdateExpression" and u["operator"] == "++":
            return v[3][1], v[2]
        return None

    def assigned(self, n):
        r = set()

        def go(x):
            if isinstance(x, dict):
                if x.get("type") == "UpdateExpression" and x["argument"]["type"] == "Identifier":
                    r.add(x["argument"]["name"])
                if x.get("type") == "AssignmentExpression" and x["left"]["type"] == "Identifier":
                    r.add(x["left"]["name"])
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        go(n)
        return r

    def s_ForOfStatement(self, n, st, sc):
        outs, res = [], []
        for s, it in self.E(n["right"], st, sc, outs):
            res += self.forof(n, s, it, sc)
        return outs + res

    s_ForInStatement = s_ForOfStatement

    def elems(self, st, it):
        """the elements, if the array is known"""
        if it[0] == "obj" and it[1] in ("Array", "Map", "Set") and (it, "$items") in st.heap and (it, "$v") not in st.heap:
            return st.heap[(it, "$items")]
        return None

    def forof(self, n, st, it, sc):
        c = self.scope(n, sc)
        known = self.elems(st, it)
        if known is not None and len(known) <= 8 and not any(x[0] == "spread" for x in known):
            sts, outs, ends = [st], [], []
            for v in known:
                nxt = []
                for s in sts:
                    for s2 in self.bind_left(n, v, s, c, outs):
                        for x in self.stmt(n["body"], s2, c):
                            if x[0] in ("n", "continue:"):
                                nxt.append(x[2])
                            elif x[0] == "break:":
                                ends.append(x[2])
                            else:
                                outs.append(x)
                sts = self.merge(nxt)
            return self.leave(outs + [("n", UNDEF, s) for s in self.merge(sts + ends)], c)
        e = cut(("elem", it, (n["id"], self.callpath[-2:])))

        def test(s, ab):
            f = s.fork()
            self.event(f, "loopend", n, it)
            if n.get("await"):
                self.bump(s, n)
            return [(s, True), (f, False)]

        def body(s):
            outs = []
            self.fresh(s, e)
            self.event(s, "elem", n, it, e)
            res = []
            for s2 in self.bind_left(n, e, s, c, outs):
                res += self.stmt(n["body"], s2, c)
            return outs + res
        return self.leave(self.loop(n, sc, [st], test, body, lambda s, o: [s]), c)

    def bind_left(self, n, v, st, c, outs):
        l = n["left"]
        if l["type"] == "VariableDeclaration":
            return self.bind_pat(l["declarations"][0]["id_"], v, st, c, n, outs, decl=True)
        return self.bind_pat(l, v, st, c, n, outs)

    def s_SwitchStatement(self, n, st, sc):
        c = self.scope(n, sc)
        out, res = [], []
        for s, v in self.E(n["discriminant"], st, sc, out):
            rest, starts, default = [s], [], None
            for i, k in enumerate(n["cases"]):
                if k["test"] is None:
                    default = i
                    continue
                nxt = []
                for r in rest:
                    for r2, w in self.E(k["test"], r, c, out):
                        for r3, b in self.split(r2, ("op", "===", v, w)):
                            self.event(r3, "test", k["test"], ("op", "===", v, w), b)
                            (starts.append((i, r3)) if b else nxt.append(r3))
                rest = nxt
            starts += [(default, r) for r in rest] if default is not None else []
            if default is None:
                res += [("n", UNDEF, r) for r in rest]
            for i, s2 in starts:
                sts = [s2]
                for k in n["cases"][i:]:
                    nxt = []
                    for s3 in sts:
                        for x in self.block_body(k["consequent"], s3, c):
                            if x[0] == "n":
                                nxt.append(x[2])
                            elif x[0] == "break:":
                                res.append(("n", UNDEF, x[2]))
                            else:
                                res.append(x)
                    sts = nxt
                res += [("n", UNDEF, x) for x in sts]
        return self.leave(out + res, c)

    def s_TryStatement(self, n, st, sc):
        cs = self.s_BlockStatement(n["block"], st, sc)
        if n["handler"]:
            nxt = []
            for c in cs:
                if c[0] != "throw":
                    nxt.append(c)
                    continue
                h = n["handler"]
                hs = self.scope(h, sc)
                outs = []
                sts = [c[2]]
                self.event(c[2], "catch", h, c[1])
                if h["param"]:
                    sts = self.bind_pat(h["param"], c[1], c[2], hs, h, outs, decl=True)
                nxt += outs
                for s in sts:
                    nxt += self.leave(self.s_BlockStatement(h["body"], s, hs), hs)
            cs = nxt
        if n["finalizer"]:
            nxt = []
            seen = set()
            for c in cs:
                k = (c[0], c[1], c[2].key())
                if k in seen:
                    continue
                seen.add(k)
                for f in self.s_BlockStatement(n["finalizer"], c[2], sc):
                    nxt.append((c[0], c[1], f[2]) if f[0] == "n" else f)
            cs = nxt
        return cs

    # ---- patterns
    def bind_pat(self, p, v, st, sc, node, out, decl=False):
        t = p["type"]
        if t == "Identifier":
            if decl:
                st.vars[(sc, p["name"])] = v
                self.event(st, "var", node, p["name"], v, sc)
            else:
                self.write_var(st, sc, p["name"], v, node)
            return [st]
        if t == "AssignmentPattern":
            res = []
            for s, b in self.split(st, ("op", "===", v, UNDEF)):
                if b:
                    for s2, d in self.E(p["right"], s, sc, out):
                        res += self.bind_pat(p["left"], d, s2, sc, node, out, decl)
                else:
                    res += self.bind_pat(p["left"], v, s, sc, node, out, decl)
            return res
        if t == "ObjectPattern":
            sts = [s for s in self.nonnull(st, v, node, out)]
            used = []
            for q in p["properties"]:
                nxt = []
                for s in sts:
                    if q["type"] == "RestElement":
                        nxt += self.bind_pat(q["argument"], ("rest", v), s, sc, node, out, decl)
                        continue
                    k = q["key"]
                    if q["computed"]:
                        for s2, kv in self.E(k, s, sc, out):
                            for s3, x in self.get(s2, v, self.propname(kv), node, out):
                                nxt += self.bind_pat(q["value"], x, s3, sc, node, out, decl)
                    else:
                        for s3, x in self.get(s, v, str(k.get("name", k.get("value"))), node, out):
                            nxt += self.bind_pat(q["value"], x, s3, sc, node, out, decl)
                sts = nxt
            return sts
        if t == "ArrayPattern":
            sts = [s for s in self.nonnull(st, v, node, out)]
            known = self.elems(st, v)
            for i, q in enumerate(p["elements"]):
                if q is None:
                    continue
                nxt = []
                for s in sts:
                    if q["type"] == "RestElement":
                        nxt += self.bind_pat(q["argument"], ("rest", v), s, sc, node, out, decl)
                    else:
                        x = known[i] if known is not None and i < len(known) else UNDEF if known is not None else self.read_prop(s, v, ("c", i))
                        nxt += self.bind_pat(q, x, s, sc, node, out, decl)
                sts = nxt
            return sts
        if t == "MemberExpression":
            res = []
            for s, b in self.E(p["object"], st, sc, out):
                for s2, k in self.key(p, s, sc, out):
                    self.set_prop(s2, b, k, v, node)
                    res.append(s2)
            return res
        raise Budget(f"pattern {t} is not modelled")

    # ---- expressions: [(state, value)], abrupt completions appended to out
    def E(self, n, st, sc, out):
        m = getattr(self, "E_" + n["type"], None)
        if m is None:
            raise Budget(f"expression {n['type']} at {self.p.line(n['id'])} is not modelled")
        return m(n, st, sc, out)

    def E_Literal(self, n, st, sc, out):
        if n.get("regex"):
            return [(st, ("regex", n["regex"]["pattern"], n["regex"]["flags"]))]
        if n.get("bigint"):
            return [(st, ("c", n["bigint"] + "n"))]
        return [(st, const(n["value"]))]

    def E_Identifier(self, n, st, sc, out):
        return [(st, self.read_var(st, sc, n["name"]))]

    def E_ThisExpression(self, n, st, sc, out):
        return [(st, st.vars.get((self.thisscope(sc), "this"), UNDEF))]

    def thisscope(self, sc):
        while sc is not None:
            if sc[0] == "fsc":
                return sc
            sc = self.parent.get(sc)
        return None

    def E_Super(self, n, st, sc, out):
        return [(st, ("super",))]

    def E_ParenthesizedExpression(self, n, st, sc, out):
        return self.E(n["expression"], st, sc, out)

    def E_ChainExpression(self, n, st, sc, out):
        return self.E(n["expression"], st, sc, out)

    def E_SequenceExpression(self, n, st, sc, out):
        sts = [(st, UNDEF)]
        for x in n["expressions"]:
            sts = [r for s, _ in sts for r in self.E(x, s, sc, out)]
        return sts

    def E_TemplateLiteral(self, n, st, sc, out):
        res = []
        for s, vs in self.Es(n["expressions"], st, sc, out):
            for x in vs:
                self.hostile(s, x, n, out)
            parts = []
            for i, q in enumerate(n["quasis"]):
                c = q["value"]["cooked"]
                if c:
                    parts.append(("c", c))
                if i < len(vs):
                    parts.append(vs[i])
            if all(x[0] == "c" and isinstance(x[1], str) for x in parts):
                res.append((s, ("c", "".join(x[1] for x in parts))))
            else:
                res.append((s, cut(("tmpl", tuple(parts)))))
        return res

    def E_TaggedTemplateExpression(self, n, st, sc, out):
        return [(s, ("tmpl", tuple(vs))) for s, vs in self.Es(n["quasi"]["expressions"], st, sc, out)]

    def Es(self, ns, st, sc, out):
        sts = [(st, [])]
        for x in ns:
            nxt = []
            for s, vs in sts:
                if x is None:
                    nxt.append((s, vs + [UNDEF]))
                elif x["type"] == "SpreadElement":
                    for s2, v in self.E(x["argument"], s, sc, out):
                        k = self.elems(s2, v)
                        nxt.append((s2, vs + list(k) if k is not None else vs + [("spread", v)]))
                else:
                    for s2, v in self.E(x, s, sc, out):
                        nxt.append((s2, vs + [v]))
            sts = nxt
        return sts

    def E_ArrayExpression(self, n, st, sc, out):
        res = []
        for s, vs in self.Es(n["elements"], st, sc, out):
            o = ("obj", "Array", (n["id"], self.callpath[-3:]))
            self.fresh(s, o)
            items = []
            for v in vs:
                known = self.elems(s, v[1]) if v[0] == "spread" else None
                items += known if known is not None and len(known) <= 8 else [v]
            s.heap[(o, "$items")] = tuple(items)
            res.append((s, o))
        return res

    def E_ObjectExpression(self, n, st, sc, out):
        o = ("obj", "Object", (n["id"], self.callpath[-3:]))
        self.fresh(st, o)
        sts = [st]
        for q in n["properties"]:
            nxt = []
            for s in sts:
                if q["type"] == "SpreadElement":
                    for s2, v in self.E(q["argument"], s, sc, out):
                        if v[0] == "obj" and v[1] == "Object" and (v, "$open") not in s2.heap and not any(k[0] == v and isinstance(k[1], str) and k[1].startswith(("get ", "set ")) for k in s2.heap):
                            for k, x in [(k, x) for k, x in s2.heap.items() if k[0] == v and isinstance(k[1], str) and not k[1].startswith("$")]:
                                s2.heap[(o, k[1])] = x
                        else:
                            s2.heap[(o, "$open")] = TRUE
                            s2.heap[(o, "$spread")] = v
                        nxt.append(s2)
                    continue
                for s2, k in self.key(q, s, sc, out, "key"):
                    for s3, v in self.E(q["value"], s2, sc, out):
                        if q["kind"] == "get":
                            s3.heap[(o, "get " + str(k))] = v
                        elif q["kind"] == "set":
                            s3.heap[(o, "set " + str(k))] = v
                        else:
                            s3.heap[(o, k)] = v
                        nxt.append(s3)
            sts = nxt
        return [(s, o) for s in sts]

    def E_FunctionExpression(self, n, st, sc, out):
        if n.get("idn"):
            c = self.scope(n, sc)
            self.closes(c)
            st.vars[(c, n["idn"])] = ("fn", n["id"], c)
            return [(st, ("fn", n["id"], c))]
        self.closes(sc)
        return [(st, ("fn", n["id"], sc))]

    def E_ArrowFunctionExpression(self, n, st, sc, out):
        self.closes(sc)
        return [(st, ("fn", n["id"], sc))]

    def E_ClassExpression(self, n, st, sc, out):
        c = ("class", n["id"], self.scope(n, sc))
        self.closes(c[2])
        sts = [st]
        if n["superClass"]:
            sts = []
            for s, v in self.E(n["superClass"], st, sc, out):
                s.heap[(c, "$super")] = v if v[0] == "class" else v[1] if v[0] == "global" else None
                sts.append(s)
        for s in sts:
            if n.get("idn"):
                s.vars[(c[2], n["idn"])] = c
            pr = ("proto", c)
            for m in n["body"]["body"]:
                if m["type"] == "MethodDefinition":
                    tgt = c if m["static"] else pr
                    k = self.static_key(m)
                    name = {"get": "get " + k, "set": "set " + k}.get(m["kind"], k)
                    s.heap[(tgt, name)] = ("fn", m["value"]["id"], c[2])
            s.heap[(pr, "constructor")] = s.heap.get((pr, "constructor"), c)
            for m in n["body"]["body"]:
                if m["type"] == "PropertyDefinition" and m["static"] and m["value"]:
                    for s2, v in self.E(m["value"], s, c[2], out)[:1]:
                        s2.heap[(c, self.static_key(m))] = v
        return [(s, c) for s in sts]

    def static_key(self, m):
        k = m["key"]
        if k["type"] == "PrivateIdentifier":
            return "#" + k["name"]
        if m.get("computed"):
            if k["type"] == "MemberExpression":
                return "@@" + k["property"].get("name", "?")
            return "?"
        return str(k.get("name", k.get("value")))

    def propname(self, v):
        if v[0] == "c" and isinstance(v[1], str):
            return v[1]
        if v[0] == "global" and v[1].startswith("Symbol."):
            return "@@" + v[1][7:]
        return v

    def key(self, n, st, sc, out, field="property"):
        p = n[field]
        if n["computed"]:
            return [(s, self.propname(v)) for s, v in self.E(p, st, sc, out)]
        if p["type"] == "PrivateIdentifier":
            return [(st, "#" + p["name"])]
        return [(st, str(p.get("name", p.get("value"))))]

    def nullable(self, st, v):
        for h in (self.nullable_hook, getattr(self.rule, "nullable", None)):
            r = h(self, st, v) if h else None
            if r is not None:
                return r
        return v[0] in ("arg", "res", "rej", "thrown", "undef", "null", "await", "elem") and v != ("arg", "rest")

    def nonnull(self, st, v, node, out):
        """member access on v: the states in which it works; the failing ones go to out"""
        if v in (NULL, UNDEF):
            out.append(("throw", ("new", "TypeError", (), (node["id"],)), st))
            return []
        if not self.nullable(st, v):
            return [st]
        r = []
        for s, b in self.split(st, ("nullish", v)):
            if b:
                out.append(("throw", ("new", "TypeError", (), (node["id"],)), s))
            else:
                r.append(s)
        return r

    def get(self, st, b, k, node, out):
        """property read with getters"""
        g = self.getter(st, b, k) if isinstance(k, str) else None
        if g:
            return self.call(st, g, b, [], node, out)
        self.hostile(st, b, node, out)
        v = self.read_prop(st, b, k)
        self.event(st, "get", node, b, k, v)
        return [(st, v)]

    def hostile(self, st, v, node, out):
        """looking at a value supplied by the script (property read, conversion) can throw"""
        h = getattr(self.rule, "hostile", None)
        if h and h(self, st, v):
            s2 = st.fork()
            self.event(s2, "looked", node, v)
            out.append(("throw", ("thrown", (node["id"], "look")), s2))

    def E_MemberExpression(self, n, st, sc, out):
        res = []
        for s, b in self.E(n["object"], st, sc, out):
            if b == ("optnull",):
                res.append((s, b))
                continue
            if b == ("super",):
                for s2, k in self.key(n, s, sc, out):
                    res.append((s2, self.super_prop(s2, sc, k)))
                continue
            sts = []
            if n.get("optional"):
                for s2, z in self.split(s, ("nullish", b)):
                    if z:
                        res.append((s2, UNDEF))
                    else:
                        sts.append(s2)
            else:
                sts = self.nonnull(s, b, n, out)
            for s2 in sts:
                for s3, k in self.key(n, s2, sc, out):
                    res += self.get(s3, b, k, n, out)
        return res

    def super_prop(self, st, sc, k):
        c = self.super_of(sc)
        d = self.superclass(st, c) if c else None
        while isinstance(d, tuple):
            if (("proto", d), k) in st.heap:
                return st.heap[(("proto", d), k)]
            d = self.superclass(st, d)
        return ("global", f"super.{k}")

    def super_of(self, sc):
        while sc is not None:
            n = self.p.nodes[sc[1]]
            if n["type"] in ("ClassDeclaration", "ClassExpression"):
                return ("class", n["id"], sc)
            sc = self.parent.get(sc)
        return None

    def E_UnaryExpression(self, n, st, sc, out):
        o = n["operator"]
        if o == "delete":
            a = n["argument"]
            a = a["expression"] if a["type"] == "ChainExpression" else a
            res = []
            if a["type"] != "MemberExpression":
                return [(st, TRUE)]
            for s, b in self.E(a["object"], st, sc, out):
                for s2, k in self.key(a, s, sc, out):
                    self.event(s2, "delete", n, b, k)
                    s2.heap[(b, k)] = UNDEF
                    res.append((s2, TRUE))
            return res
        res = []
        for s, v in self.E(n["argument"], st, sc, out):
            if o == "!":
                r = self.truth(s, v)
                res.append((s, ("b", not r) if r is not None else ("not", v)))
            elif o == "typeof":
                res.append((s, self.typeof(s, v)))
            elif o == "void":
                res.append((s, UNDEF))
            elif o == "-" and v[0] == "c" and not isinstance(v[1], str):
                res.append((s, ("c", -v[1])))
            elif o == "+":
                res.append((s, v if v[0] == "c" and not isinstance(v[1], str) else ("call", "Number", (v,), "any")))
            else:
                res.append((s, cut(("un", o, v))))
        return res

    def typeof(self, st, v):
        for w in ("function", "object", "string", "undefined", "number", "boolean"):
            if v[0] != "global" and self.typ(st, v, ("c", w)) is True:
                return ("c", w)
        if v[0] == "global" and self.known_global(v[1]):
            if ".prototype." in v[1]:
                return ("c", "function")
            return ("c", "function" if v[1] in PURE_FN or v[1] in PURE_NEW else "object")
        return ("typeof", v)

    def E_BinaryExpression(self, n, st, sc, out):
        res = []
        o = n["operator"]
        for s, a in self.E(n["left"], st, sc, out) if n["left"]["type"] != "PrivateIdentifier" else [(st, ("c", "#" + n["left"]["name"]))]:
            for s2, b in self.E(n["right"], s, sc, out):
                if o in ("+", "in", "==", "<", ">"):
                    for x in (a, b):
                        self.hostile(s2, x, n, out)
                res.append((s2, self.binop(s2, o, a, b)))
        return res

    def binop(self, s, o, a, b):
        num = a[0] == "c" and b[0] == "c" and not isinstance(a[1], str) and not isinstance(b[1], str)
        if o == "+" and a[0] == "c" and b[0] == "c":
            if num:
                return ("c", a[1] + b[1])
            return ("c", self.jstr(a[1]) + self.jstr(b[1]))
        if num and o in ("-", "*", "&", "|", "<<", ">>", ">>>", "%", "/", "^"):
            try:
                x, y = a[1], b[1]
                return ("c", {"-": lambda: x - y, "*": lambda: x * y, "&": lambda: int(x) & int(y), "|": lambda: int(x) | int(y), "<<": lambda: int(x) << int(y),
                              ">>": lambda: int(x) >> int(y), ">>>": lambda: int(x) >> int(y), "%": lambda: x % y, "/": lambda: x / y, "^": lambda: int(x) ^ int(y)}[o]())
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        if o == "instanceof":
            nm = self.class_name(b)
            t = ("inst", a, nm)
            r = self.truth(s, t)
            return ("b", r) if r is not None else t
        t = cut(("op", o, a, b))
        if o in ("===", "!==", "==", "!=", "<", ">", "<=", ">="):
            r = self.truth(s, t)
            if r is not None:
                return ("b", r)
        return t

    def jstr(self, v):
        return v if isinstance(v, str) else str(int(v)) if isinstance(v, float) and v == int(v) else str(v)

    def class_name(self, b):
        if b[0] == "class":
            return self.p.nodes[b[1]].get("idn") or f"class#{b[1]}"
        if b[0] == "global":
            return b[1]
        return show(b)

    def E_LogicalExpression(self, n, st, sc, out):
        o = n["operator"]
        res = []
        for s, a in self.E(n["left"], st, sc, out):
            q = a if o != "??" else ("not", ("nullish", a))
            for s2, b in self.split(s, q):
                self.event(s2, "test", n["left"], q, b)
                if o == "&&" and b or o == "||" and not b or o == "??" and not b:
                    res += self.E(n["right"], s2, sc, out)
                else:
                    res.append((s2, a))
        return res

    def E_ConditionalExpression(self, n, st, sc, out):
        res = []
        for s, a in self.E(n["test"], st, sc, out):
            for s2, b in self.split(s, a):
                self.event(s2, "test", n["test"], a, b)
                res += self.E(n["consequent"] if b else n["alternate"], s2, sc, out)
        return res

    def E_AssignmentExpression(self, n, st, sc, out):
        o, l = n["operator"], n["left"]
        res = []
        if o == "=":
            if l["type"] == "MemberExpression":
                for s, b in self.E(l["object"], st, sc, out):
                    for s1 in self.nonnull(s, b, n, out):
                        for s2, k in self.key(l, s1, sc, out):
                            for s3, v in self.E(n["right"], s2, sc, out):
                                res += self.store(s3, b, k, v, n, out)
                return res
            for s, v in self.E(n["right"], st, sc, out):
                if v[0] == "fn" and l["type"] == "Identifier":
                    pass
                for s2 in self.bind_pat(l, v, s, sc, n, out):
                    res.append((s2, v))
            return res
        for s, cur in self.E(l, st, sc, out):
            if o in ("&&=", "||=", "??="):
                q = cur if o != "??=" else ("not", ("nullish", cur))
                for s2, b in self.split(s, q):
                    if (o == "&&=") == b:
                        for s3, v in self.E(n["right"], s2, sc, out):
                            for s4 in self.bind_pat(l, v, s3, sc, n, out):
                                res.append((s4, v))
                    else:
                        res.append((s2, cur))
                continue
            for s2, v in self.E(n["right"], s, sc, out):
                w = self.binop(s2, o[:-1], cur, v)
                for s3 in self.bind_pat(l, self.widen(w), s2, sc, n, out):
                    res.append((s3, w))
        return res

    def widen(self, w):
        """accumulators in loops converge"""
        return w if depth(w) <= 6 else ("big", cut(w, 2))

    def store(self, st, b, k, v, n, out):
        if isinstance(k, str):
            c = self.type_of(b)
            f = st.heap.get((b, "set " + k))
            while f is None and isinstance(c, tuple) and c[0] == "class":
                f = st.heap.get((("proto", c), "set " + k))
                c = self.superclass(st, c)
            if f:
                return [(s, v) for s, _ in self.call(st, f, b, [v], n, out)]
        self.set_prop(st, b, k, v, n)
        return [(st, v)]

    def E_UpdateExpression(self, n, st, sc, out):
        res = []
        for s, cur in self.E(n["argument"], st, sc, out):
            w = self.widen(self.binop(s, "+" if n["operator"] == "++" else "-", cur, ("c", 1)))
            for s2 in self.bind_pat(n["argument"], w, s, sc, n, out):
                res.append((s2, w if n["prefix"] else cur))
        return res

    def E_SpreadElement(self, n, st, sc, out):
        return [(s, ("spread", v)) for s, v in self.E(n["argument"], st, sc, out)]

    def E_AwaitExpression(self, n, st, sc, out):
        res = []
        for s, v in self.E(n["argument"], st, sc, out):
            res += self.await_(s, v, n, out)
        return res

    def await_(self, s, v, n, out):
        res = []
        self.event(s, "await", n, v)
        for s2, ok, x in self.settle_of(s, v, n, out):
            self.bump(s2, n)
            self.event(s2, "resume", n, v, ok, x)
            if ok:
                res.append((s2, x))
            else:
                out.append(("throw", x, s2))
        return res

    def settle_of(self, s, v, n, out):
        """how a promise (or value) turns out: [(state, ok, value)]"""
        h = getattr(self.rule, "settles", None)
        if h:
            r = h(self, s, v, n, out)
            if r is not None:
                return r
        if v[0] == "prom":
            return [(s, v[1] == "ok", v[2])]
        if v[0] == "obj" and v[1] == "Promise":
            st = s.heap.get((v, "$state"))
            if st and st[0] == "prom":
                return [(s, st[1] == "ok", st[2])]
            s2 = s.fork()
            r = [(s, True, ("res", v))]
            return r + [(s2, False, ("rej", v))]
        if v[0] in ("c", "b", "null", "undef", "fn", "class", "op", "this") or v[0] == "obj" and v[1] != "Promise":
            return [(s, True, v)]
        site = (n["id"], self.callpath[-2:])
        a, b = ("res", v, site), ("rej", v, site)
        f = s.fork()
        self.fresh(s, a)
        self.fresh(f, b)
        return [(s, True, a), (f, False, b)]

    def E_YieldExpression(self, n, st, sc, out):
        res = []
        for s, v in self.E(n["argument"], st, sc, out) if n["argument"] else [(st, UNDEF)]:
            self.event(s, "yield*" if n["delegate"] else "yield", n, v)
            self.bump(s, n)
            res.append((s, ("yielded", n["id"])))
        return res

    def E_MetaProperty(self, n, st, sc, out):
        return [(st, ("global", "new.target"))]

    def E_ImportExpression(self, n, st, sc, out):
        return [(st, ("call", "import", (), (n["id"],)))]

    # ---- calls
    def E_NewExpression(self, n, st, sc, out):
        res = []
        for s, f in self.E(n["callee"], st, sc, out):
            for s2, args in self.Es(n["arguments"], s, sc, out):
                res += self.construct(s2, f, args, n, out)
        return res

    def skippable(self, fid, args):
        """the rule names what it is about; a function that cannot touch any of it is not entered"""
        names = getattr(self.rule, "relevant", None)
        if names is None:
            return False
        hit = self.p.touching(names)
        return fid not in hit and not any(mentions(a, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fn" and t[1] in hit) for a in args)

    def opaque(self, st, f, this, args, n, out):
        """a function that is irrelevant to the rule: any result, may throw, may change what it is given"""
        site = (n["id"], self.callpath[-3:])
        v = cut(("call", ("fn", f[1], ()), tuple(args) if this[0] in ("undef", "this") else (this,) + tuple(args), site))
        self.fresh(st, v)
        self.event(st, "skip", n, f, this, args, v)
        self.disturb(st, args, site)
        if self.may_throw(st, f, args):
            s2 = st.fork()
            out.append(("throw", ("thrown", site), s2))
        return [(st, v)]

    def disturb(self, st, args, site):
        names = self.rule.relevant
        for a in args:
            if a[0] == "obj":
                st.heap.pop((a, "$items"), None)
                for k in [k for k in st.heap if k[0] == a and isinstance(k[1], str) and k[1] not in names and (k[1] in ("length", "size") or not k[1].startswith("$"))]:
                    if st.heap[k][0] != "fn":
                        del st.heap[k]
                st.heap[(a, "$open")] = TRUE
                st.heap[(a, "$v")] = site
        cap = self.p.captured()
        for k in st.vars:
            if (k[0][1], k[1]) in cap:
                st.vars[k] = ("cvar", k[0], k[1], site)

    def construct(self, st, f, args, n, out):
        site = (n["id"], self.callpath[-3:])
        h = getattr(self.rule, "construct", None)
        if h:
            r = h(self, st, f, args, n, out)
            if r is not None:
                return r
        if f[0] == "class":
            ctor = next((m["value"]["id"] for m in self.p.nodes[f[1]]["body"]["body"] if m["type"] == "MethodDefinition" and m["kind"] == "constructor"), None)
            if ctor is not None and self.skippable(ctor, args):
                v = ("typed", cut(("new", self.cname(f), tuple(args), site)), f)
                self.fresh(st, v)
                self.event(st, "skip", n, f, UNDEF, args, v)
                self.disturb(st, args, site)
                if self.may_throw(st, ("new", f), args):
                    out.append(("throw", ("thrown", site), st.fork()))
                return [(st, v)]
            o = ("obj", f, site)
            self.fresh(st, o)
            self.event(st, "new", n, f, args, o)
            return [(s, o) for s in self.init(st, f, o, args, n, out)]
        name = f[1] if f[0] == "global" else None
        if name == "Promise" and args:
            p = ("obj", "Promise", site)
            self.fresh(st, p)
            ab = []
            r = []
            for s, _ in self.call(st, args[0], UNDEF, [("resolver", p, "ok"), ("resolver", p, "err")], n, ab):
                r.append(s)
            for k, v, s in ab:
                if k == "throw":
                    self.settle(s, p, "err", v, n)
                    r.append(s)
                else:
                    out.append((k, v, s))
            return [(s, p) for s in self.merge(r)]
        v = cut(("new", name if name else f, tuple(args), site))
        self.fresh(st, v)
        self.event(st, "call", n, ("new", name or f), UNDEF, args, v)
        if name not in PURE_NEW:
            if self.may_throw(st, ("new", name or f), args):
                s2 = st.fork()
                out.append(("throw", ("thrown", site), s2))
            self.bump(st, n)
        if name in ("Map", "Set", "Uint8Array", "Array") and not args:
            o = ("obj", "Array" if name == "Array" else name, site)
            self.fresh(st, o)
            if name in ("Map", "Set", "Array"):
                st.heap[(o, "$items")] = ()
            return [(st, o)]
        return [(st, v)]

    def init(self, st, c, o, args, n, out):
        node = self.p.nodes[c[1]]
        ctor = st.heap.get((("proto", c), "constructor"))
        sup = self.superclass(st, c)
        sts = [st]
        if ctor is None or ctor[0] != "fn":
            if isinstance(sup, tuple):
                sts = self.init(st, sup, o, args, n, out)
            return [s2 for s in sts for s2 in self.fields(s, c, o, n, out)]
        if sup is None:
            sts = self.fields(st, c, o, n, out)
        return [s2 for s in sts for s2, _ in self.call(s, ctor, o, args, n, out)]

    def fields(self, st, c, o, n, out):
        node = self.p.nodes[c[1]]
        sts = [st]
        for m in node["body"]["body"]:
            if m["type"] == "PropertyDefinition" and not m["static"]:
                nxt = []
                fs = ("fsc", m["id"], self.callpath)
                self.parent[fs] = c[2]
                for s in sts:
                    s.vars[(fs, "this")] = o
                    for s2, v in (self.E(m["value"], s, fs, out) if m["value"] else [(s, UNDEF)]):
                        self.set_prop(s2, o, self.static_key(m), v, m)
                        nxt.append(s2)
                sts = nxt
        return sts

    def E_CallExpression(self, n, st, sc, out):
        c = n["callee"]
        opt = n.get("optional")
        res = []
        inner = c["expression"] if c["type"] in ("ChainExpression", "ParenthesizedExpression") else c
        if inner["type"] == "Super":
            cl = self.super_of(sc)
            th = st.vars.get((self.thisscope(sc), "this"), UNDEF)
            for s, args in self.Es(n["arguments"], st, sc, out):
                sup = self.superclass(s, cl)
                sts = self.init(s, sup, th, args, n, out) if isinstance(sup, tuple) else [s]
                for s2 in sts:
                    for s3 in self.fields(s2, cl, th, n, out):
                        res.append((s3, UNDEF))
            return res
        if inner["type"] == "MemberExpression":
            bases = self.E(inner["object"], st, sc, out)
            for s, b in bases:
                if b == ("super",):
                    th = s.vars.get((self.thisscope(sc), "this"), UNDEF)
                    for s2, k in self.key(inner, s, sc, out):
                        f = self.super_prop(s2, sc, k)
                        for s3, args in self.Es(n["arguments"], s2, sc, out):
                            res += self.call(s3, f, th, args, n, out)
                    continue
                sts = []
                if inner.get("optional"):
                    for s2, z in self.split(s, ("nullish", b)):
                        if z:
                            res.append((s2, UNDEF))
                        else:
                            sts.append(s2)
                else:
                    sts = self.nonnull(s, b, inner, out)
                for s2 in sts:
                    for s3, k in self.key(inner, s2, sc, out):
                        g = self.getter(s3, b, k) if isinstance(k, str) else None
                        fs = self.call(s3, g, b, [], inner, out) if g else [(s3, self.read_prop(s3, b, k))]
                        for s4, f in fs:
                            for s5, args in self.Es(n["arguments"], s4, sc, out):
                                if opt:
                                    for s6, z in self.split(s5, ("nullish", f)):
                                        if z:
                                            res.append((s6, UNDEF))
                                        else:
                                            res += self.method(s6, b, k, f, args, n, out)
                                else:
                                    res += self.method(s5, b, k, f, args, n, out)
            return res
        for s, f in self.E(c, st, sc, out):
            for s2, args in self.Es(n["arguments"], s, sc, out):
                if opt:
                    for s3, z in self.split(s2, ("nullish", f)):
                        if z:
                            res.append((s3, UNDEF))
                        else:
                            res += self.call(s3, f, UNDEF, args, n, out)
                else:
                    res += self.call(s2, f, UNDEF, args, n, out)
        return res

    def method(self, st, b, k, f, args, n, out):
        if f[0] in ("fn", "bound", "resolver"):
            return self.call(st, f, b, args, n, out)
        if k in ("call", "apply", "bind") and b[0] in ("fn", "bound", "resolver", "class"):
            if k == "call":
                return self.call(st, b, args[0] if args else UNDEF, list(args[1:]), n, out)
            if k == "apply":
                rest = self.elems(st, args[1]) if len(args) > 1 else ()
                return self.call(st, b, args[0] if args else UNDEF, list(rest) if rest is not None else [("spread", args[1])], n, out)
            return [(st, ("bound", b, tuple(args)))]
        if k in ("then", "catch", "finally"):
            return self.chain(st, b, k, args, n, out)
        h = getattr(self.rule, "method", None)
        if h:
            r = h(self, st, b, k, f, args, n, out)
            if r is not None:
                return r
        if isinstance(k, str) and (k in PURE_Q or k in MUT) and f[0] != "fn" and not (b[0] == "global" and (b[1] + "." + k) in PURE_FN):
            return self.builtin(st, b, k, args, n, out)
        if k == "forEach" and args and args[0][0] == "fn":
            return self.foreach(st, b, args[0], n, out)
        return self.call(st, f, b, args, n, out)

    def foreach(self, st, b, f, n, out):
        e = cut(("elem", b, (n["id"], self.callpath[-2:])))
        known = self.elems(st, b)
        if known is not None and len(known) <= 8 and not any(x[0] == "spread" for x in known):
            sts = [st]
            for i, v in enumerate(known):
                sts = [s2 for s in sts for s2, _ in self.call(s, f, UNDEF, [v, ("c", i), b], n, out)]
            return [(s, UNDEF) for s in self.merge(sts)]

        def test(s, ab):
            f = s.fork()
            self.event(f, "loopend", n, b)
            return [(s, True), (f, False)]

        def body(s):
            o = []
            self.fresh(s, e)
            self.event(s, "elem", n, b, e)
            rs = self.call(s, f, UNDEF, [e, ("idx", n["id"]), b], n, o)
            return o + [("n", UNDEF, x) for x, _ in rs]
        cs = self.loop(n, None, [st], test, body, lambda s, o: [s])
        out += [c for c in cs if c[0] != "n"]
        return [(c[2], UNDEF) for c in cs if c[0] == "n"]

    def builtin(self, st, b, k, args, n, out):
        self.event(st, "mcall", n, b, k, args)
        if k == "slice" and not args and self.elems(st, b) is not None:
            o = ("obj", "Array", (n["id"], self.callpath[-3:]))
            self.fresh(st, o)
            st.heap[(o, "$items")] = self.elems(st, b)
            return [(st, o)]
        if k in MUT:
            known = st.heap.get((b, "$items")) if b[0] == "obj" else None
            site = (n["id"], self.callpath[-2:])
            times = st.heap.get((b, n["id"]), ("c", 0))[1]
            if k == "push" and known is not None and (b, "$v") not in st.heap and len(known) + len(args) <= 4 and times < getattr(self.rule, "max_push", 1):
                st.heap[(b, "$items")] = known + tuple(args)
                st.heap[(b, n["id"])] = ("c", times + 1)
                return [(st, ("c", len(known) + len(args)))]
            r = cut(("call", k, (b,) + tuple(args), site))
            if k in ("shift", "pop"):
                self.fresh(st, r)
            st.heap.pop((b, "$items"), None)
            self.touch(st, b, n)
            if k == "splice" and tuple(args) == (("c", 0),) or k == "clear":
                st.heap[(b, "size" if k == "clear" else "length")] = ("c", 0)
            return [(st, r)]
        fns = [a for a in args if a[0] == "fn"]
        r = self.listed(st, b, k, args, fns, n, out) if k in LISTED else self.folded(b, k, args) if b[0] == "c" and isinstance(b[1], str) else None
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
        v = cut(("call", k, (b,) + tuple(args), self.ver(st, b)))
        sts = [st]
        if fns and k in ("map", "filter", "find", "some", "every", "reduce", "findIndex"):
            # explore the callback for its effects
            e = cut(("elem", b, (n["id"], self.callpath[-2:])))
            s2 = st.fork()
            self.fresh(s2, e)
            a = [e, ("idx", n["id"])] if k != "reduce" else [("acc", n["id"]), e]
            o = []
            before = (s2.heap, s2.vars)
            rs = self.call(s2, fns[0], UNDEF, a, n, o)
            out += o
            for s, r in rs:
                s.facts = {x: y for x, y in s.facts.items() if x in st.facts}
                sts.append(s)
            if k in ("map", "filter") and len({r for _, r in rs}) == 1 and rs:
                v = cut(("call", k, (b, ("each", rs[0][1])), self.ver(st, b)))
        return [(s, v) for s in self.merge(sts)]

    def folded(self, b, k, args):
        """string methods of constants"""
        x = [a[1] for a in args]
        if not all(a[0] == "c" and isinstance(a[1], str) for a in args) or not b[1].isascii():
            return None
        if k in ("toUpperCase", "toLowerCase", "trim") and not x:
            return ("c", {"toUpperCase": b[1].upper, "toLowerCase": b[1].lower, "trim": b[1].strip}[k]())
        if k in ("startsWith", "endsWith", "includes") and len(x) == 1:
            return ("b", {"startsWith": b[1].startswith, "endsWith": b[1].endswith, "includes": b[1].__contains__}[k](x[0]))
        if k == "indexOf" and len(x) == 1:
            return ("c", b[1].find(x[0]))
        if k == "replace" and len(x) == 2 and "$" not in x[1]:
            return ("c", b[1].replace(x[0], x[1], 1))
        return None

    def listed(self, st, b, k, args, fns, n, out):
        """queries on an array whose elements are known"""
        items = self.elems(st, b)
        if items is None or b[1] != "Array" or len(items) > 6 or any(x[0] == "spread" for x in items) or not args:
            return None
        if k in ("includes", "indexOf"):
            if args[0][0] not in ("c", "b") or len(args) > 1:
                return None
            at = next((i for i, x in enumerate(items) if x == args[0]), -1)
            if at >= 0 and any(x[0] not in ("c", "b") for x in items[:at]) or at < 0 and any(x[0] not in ("c", "b") for x in items):
                return None
            return ("b", at >= 0) if k == "includes" else ("c", at)
        if not fns or args[0] != fns[0]:
            return None
        live, done = [(st, ())], []
        for i, x in enumerate(items):
            nxt = []
            for s, acc in live:
                for s2, r in self.call(s, fns[0], UNDEF, [x, ("c", i), b], n, out):
                    if k == "map":
                        nxt.append((s2, acc + (r,)))
                        continue
                    for s3, y in self.split(s2, r):
                        if k == "filter":
                            nxt.append((s3, acc + (x,) if y else acc))
                        elif y == (k != "every"):
                            done.append((s3, {"some": TRUE, "every": FALSE, "find": x, "findIndex": ("c", i)}[k]))
                        else:
                            nxt.append((s3, acc))
            live = nxt
        for s, acc in live:
            if k in ("map", "filter"):
                o = ("obj", "Array", (n["id"], self.callpath[-3:]))
                self.fresh(s, o)
                s.heap[(o, "$items")] = acc
                done.append((s, o))
            else:
                done.append((s, {"some": FALSE, "every": TRUE, "find": UNDEF, "findIndex": ("c", -1)}[k]))
        return done

    def chain(self, st, b, k, args, n, out):
        """promise reactions, evaluated when registered"""
        res = []
        args = list(args) + [UNDEF, UNDEF]
        for s, ok, v in self.settle_of(st, b, n, out):
            self.event(s, "observed", n, b, ok, v)
            f = args[0] if k == "then" and ok or k == "finally" or k == "catch" and not ok else args[1] if k == "then" and not ok else UNDEF
            if f == UNDEF or f == NULL:
                res.append((s, ("prom", "ok" if ok else "err", v)))
                continue
            self.event(s, "react", n, ok, v)
            self.bump(s, n)
            o = []
            rs = self.call(s, f, UNDEF, [v] if k != "finally" else [], n, o)
            for s2, r in rs:
                if k == "finally":
                    for s3, ok2, r2 in self.settle_of(s2, r, n, out):
                        res.append((s3, ("prom", "ok" if ok else "err", v) if ok2 else ("prom", "err", r2)))
                else:
                    for s3, ok2, r2 in self.settle_of(s2, r, n, out) if r[0] in ("prom", "obj", "call", "fld", "new") else [(s2, True, r)]:
                        res.append((s3, ("prom", "ok" if ok2 else "err", r2)))
            for kk, x, s2 in o:
                if kk == "throw":
                    res.append((s2, ("prom", "err", x)))
                else:
                    out.append((kk, x, s2))
        return res

    def settle(self, st, p, how, v, n):
        if (p, "$state") not in st.heap:
            st.heap[(p, "$state")] = ("prom", how, v)
            self.event(st, "settle", n, p, how, v)

    def may_throw(self, st, callee, args):
        h = getattr(self.rule, "throws", None)
        if h:
            r = h(self, st, callee, args)
            if r is not None:
                return r
        return True

    def call(self, st, f, this, args, n, out):
        h = getattr(self.rule, "call", None)
        if h:
            r = h(self, st, f, this, args, n, out)
            if r is not None:
                return r
        if f[0] == "bound":
            return self.call(st, f[1], f[2][0] if f[2] else UNDEF, list(f[2][1:]) + list(args), n, out)
        if f[0] == "resolver":
            v = args[0] if args else UNDEF
            if f[2] == "ok" and v[0] in ("prom",):
                self.settle(st, f[1], v[1], v[2], n)
            elif f[2] == "ok" and v[0] == "obj" and v[1] == "Promise" and (v, "$state") in st.heap:
                self.settle(st, f[1], st.heap[(v, "$state")][1], st.heap[(v, "$state")][2], n)
            else:
                self.settle(st, f[1], f[2], v, n)
            return [(st, UNDEF)]
        if f[0] == "fn":
            if self.skippable(f[1], args):
                return self.opaque(st, f, this, args, n, out)
            if sum(1 for c in self.callpath if c[1] == f[1]) < 1 and len(self.callpath) < self.max_inline:
                return self.enter(st, f, this, args, n, out)
        if self.type_of(f) == "Resolver":
            self.event(st, "settle", n, f, "?", args[0] if args else UNDEF)
            return [(st, UNDEF)]
        if f[0] == "class":
            out.append(("throw", ("new", "TypeError", (), (n["id"],)), st))
            return []
        name = f[1] if f[0] == "global" else None
        site = (n["id"], self.callpath[-3:])
        if name == "Promise.resolve":
            v = args[0] if args else UNDEF
            return [(st, v if v[0] in ("prom",) or v[0] == "obj" and v[1] == "Promise" else ("prom", "ok", v) if v[0] not in ("res", "call", "fld", "arg", "await") else v)]
        if name == "Promise.reject":
            return [(st, ("prom", "err", args[0] if args else UNDEF))]
        if name == "Object.assign" and args and args[0][0] in ("obj", "this", "arg", "typed"):
            for a in args[1:]:
                if a[0] == "obj":
                    for k, v in [(k, v) for k, v in st.heap.items() if k[0] == a and isinstance(k[1], str) and not k[1].startswith("$")]:
                        self.set_prop(st, args[0], k[1], v, n)
                else:
                    st.heap[(args[0], "$open")] = TRUE
            return [(st, args[0])]
        if name == "Object.freeze" and args:
            return [(st, args[0])]
        if name == "Reflect.deleteProperty" and len(args) == 2 and args[1][0] == "c" and isinstance(args[1][1], str):
            self.event(st, "delete", n, args[0], args[1][1])
            st.heap[(args[0], args[1][1])] = UNDEF
            return [(st, TRUE)]
        if name == "Array.from" and len(args) == 1 and self.elems(st, args[0]) is not None and not any(x[0] == "spread" for x in self.elems(st, args[0])):
            o = ("obj", "Array", site)
            self.fresh(st, o)
            st.heap[(o, "$items")] = self.elems(st, args[0])
            return [(st, o)]
        if name == "Object.create" and args:
            o = ("obj", args[0][1] if args[0][0] == "proto" else "Object", site)
            self.fresh(st, o)
            if args[0][0] != "proto":
                st.heap[(o, "$open")] = TRUE
            return [(st, o)]
        desc = name if name else f
        v = cut(("call", desc, tuple(args), site if name not in CANON else "any"))
        if name not in CANON:
            self.fresh(st, v)
        self.event(st, "call", n, desc, this, args, v)
        if name in PURE_FN:
            return [(st, v)]
        if self.may_throw(st, desc, args):
            s2 = st.fork()
            self.bump(s2, n)
            t = ("thrown", site)
            self.fresh(s2, t)
            self.event(s2, "threw", n, desc, args, t)
            out += [("throw", t, s3) for s3 in self.interrupt(s2, n)]
        hb = getattr(self.rule, "bumps", None)
        if hb is None or hb(self, st, desc, args) is not False:
            self.bump(st, n)
            return [(s3, v) for s3 in self.interrupt(st, n)]
        return [(st, v)]

    def interrupt(self, st, n):
        """the states in which other code can leave the objects the rule watches"""
        h = getattr(self.rule, "interrupt", None)
        return h(self, st, n) if h else [st]

    def enter(self, st, f, this, args, n, out, root=False):
        node = self.p.nodes[f[1]]
        self.seen_fns.add(f[1])
        saved = self.callpath
        self.callpath = saved + ((n["id"], f[1]),)
        arrow = node["type"] == "ArrowFunctionExpression"
        sc = ("sc" if arrow else "fsc", f[1], self.callpath)
        self.parent[sc] = f[2]
        if not arrow:
            st.vars[(sc, "this")] = this
        if not root:
            self.event(st, "enter", node, f, this, args)
        ab = []
        sts = [st]
        i = 0
        spread = next((j for j, a in enumerate(args) if a[0] == "spread"), None)
        for j, p in enumerate(node["params"]):
            nxt = []
            for s in sts:
                if p["type"] == "RestElement":
                    r = ("obj", "Array", (p["id"], self.callpath[-3:]))
                    self.fresh(s, r)
                    s.heap[(r, "$items")] = tuple(args[j:])
                    nxt += self.bind_pat(p["argument"], r if not any(a[0] == "spread" for a in args[j:]) or len(args[j:]) > 1 else args[j][1], s, sc, node, ab, decl=True)
                else:
                    if spread is not None and j >= spread:
                        a = self.read_prop(s, args[spread][1], ("c", j - spread))
                    else:
                        a = args[j] if j < len(args) else UNDEF
                    nxt += self.bind_pat(p, a, s, sc, node, ab, decl=True)
            sts = nxt
        res, throws = [], []
        gen = node.get("generator") and not root
        if gen:
            self.callpath = saved
            return [(s, cut(("call", f, (this,) + tuple(args), (n["id"], saved[-2:])))) for s in sts]
        for s in sts:
            if node["body"]["type"] == "BlockStatement":
                cs = self.block_body(node["body"]["body"], s, sc)
            else:
                o = []
                cs = [("return", v, s2) for s2, v in self.E(node["body"], s, sc, o)] + o
            for c in cs:
                if c[0] == "return":
                    res.append((c[2], c[1]))
                elif c[0] == "n":
                    res.append((c[2], UNDEF))
                else:
                    throws.append(c)
        throws += ab
        for s, v in res:
            self.event(s, "leave", node, f, "return", v)
        for k, v, s in throws:
            self.event(s, "leave", node, f, "throw", v)
        if node.get("async") and not root:
            r2 = []
            for s, v in res:
                for s2, ok, x in (self.settle_of(s, v, n, out) if v[0] in ("prom",) or v[0] == "obj" and v[1] == "Promise" else [(s, True, v)]):
                    r2.append((s2, ("prom", "ok" if ok else "err", x)))
            res = r2 + [(s, ("prom", "err", v)) for k, v, s in throws]
            throws = []
        self.callpath = saved
        if not root:
            self.leave([("n", v, s) for s, v in res] + throws, sc)
        out += throws
        # identical outcomes
        seen, r3 = set(), []
        for s, v in res:
            k = (v, s.key())
            if k not in seen:
                seen.add(k)
                r3.append((s, v))
        self.nstates += len(r3)
        if self.nstates > self.max_states:
            raise Budget(f"more than {self.max_states} abstract states")
        return r3


# ------------------------------------------------------------------------------------------------ the world after setup

class World:
    """program + abstract heap after all setup scripts ran in order"""

    def __init__(self, prog, skip=("setup_env",)):
        self.p = prog
        self.engine = Engine(prog)
        self.engine.setup([s for s in prog.ordered() if s.fn not in skip])
        self.base = self.engine.base

    def engine_for(self, rule, **kw):
        e = Engine(self.p, rule, **kw)
        e.parent = dict(self.engine.parent)
        e.base = self.base
        e.closed = set(self.engine.closed)
        e.ftypes = {k: set(v) for k, v in self.engine.ftypes.items()}
        return e

    def globals(self, name):
        return self.base.heap.get((G, name))

    def cls(self, name):
        c = self.globals(name)
        return c if c and c[0] == "class" else None

    def methods(self, c):
        """{name: fn term} of a class (accessors as 'get x'/'set x'); statics under 'static x'"""
        out = {}
        for (b, k), v in self.base.heap.items():
            if b == ("proto", c) and v[0] == "fn":
                out[k] = v
            elif b == c and isinstance(k, str) and v[0] == "fn":
                out["static " + k] = v
        return out

    def fnodes(self):
        return [n for n in self.p.nodes if n["type"] in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression")]


def world(ctx, **kw):
    if not hasattr(ctx, "_world"):
        ctx._world = World(ctx.js(), **kw)
    return ctx._world


def explore(ctx, eng, fn, what, this=UNDEF, args=None, st=None):
    """all exits of a function; fails closed on what the engine cannot follow"""
    from .check import Missing
    try:
        ex = eng.run(fn, this, args, st)
    except Budget as x:
        raise Missing(f"budget:{what}", f"{what}: {x}")
    ctx.functions |= {f"{eng.p.line(i)} {eng.p.nodes[i].get('idn') or eng.p.nodes[i]['type']}" for i in eng.seen_fns}
    ctx.states += eng.nstates
    return ex
