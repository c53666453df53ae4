"""Reader for rustc's MIR text (`-Zdump-mir=ElaborateDrops`, full paths, spans on)."""
import os, re
from . import rustsrc

STD_VARIANTS = {
    "std::option::Option": ["None", "Some"], "std::result::Result": ["Ok", "Err"],
    "std::task::Poll": ["Ready", "Pending"], "std::ops::ControlFlow": ["Continue", "Break"],
    "std::cmp::Ordering": ["Less", "Equal", "Greater"],
    "std::sync::mpsc::RecvTimeoutError": ["Timeout", "Disconnected"],
    "std::sync::mpmc::RecvTimeoutError": ["Timeout", "Disconnected"],
    "std::sync::mpsc::TryRecvError": ["Empty", "Disconnected"],
    "tokio::sync::mpsc::error::TrySendError": ["Full", "Closed"],
    "tokio::sync::mpsc::error::TryRecvError": ["Empty", "Disconnected"],
}


CHAR = re.compile(r"'(?:[^'\\]|\\(?:x..|u\{[0-9a-f]+\}|.))'")


def split_top(s, sep=","):
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1]); i = j + 1
            continue
        if c == "'" and i + 2 < n:
            m = CHAR.match(s, i)
            if m:
                cur.append(m.group()); i = m.end()
                continue
        if c in "([{<":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ">" and s[i - 1] not in "-=":
            depth -= 1
        if c == sep and depth == 0:
            out.append("".join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


def close_paren(s, i):
    """index of the bracket that closes s[i]"""
    pairs = {"(": ")", "[": "]", "{": "}", "<": ">"}
    op, cl, depth, n = s[i], pairs[s[i]], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and i + 2 < n and (m := CHAR.match(s, i)):
            i = m.end()
            continue
        elif c == op:
            depth += 1
        elif c == cl and not (cl == ">" and s[i - 1] in "-="):
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError("unbalanced: " + s[:200])


def strip_generics(p):
    """`a::B::<X, Y>::m::<Z>` -> `a::B::m`; keeps a leading `<T as Trait>`."""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i):
            j = close_paren(p, i + 2)
            i = j + 1
        else:
            out.append(p[i]); i += 1
    return "".join(out)


def type_head(t):
    """`&'a mut std::option::Option<X>` -> `std::option::Option`"""
    t = t.strip()
    while True:
        m = re.match(r"(?:&(?:'\w+ )?(?:mut )?|\*const |\*mut )", t)
        if not m or not m.group():
            break
        t = t[m.end():]
    if t.startswith("{") or t.startswith("(") or t.startswith("["):
        return t
    i = t.find("<")
    return (t[:i] if i > 0 else t).rstrip(":").strip()


def parse_place(s):
    s = s.strip()
    if s.startswith("/*tls*/"):
        return ("static", [("s", s[7:].strip())])
    p, i = _place(s, 0)
    if i != len(s):
        raise ValueError("place: " + s)
    return p


def _place(s, i):
    """place := (local, [proj...]); proj: ('*',) ('f', idx, type) ('v', name) ('i', operand) ('c', text)"""
    if s[i] == "_":
        m = re.match(r"_(\d+)", s[i:])
        base, projs, i = int(m.group(1)), [], i + m.end()
    elif s[i] == "(":
        if s[i + 1] == "*":
            (base, projs), j = _place(s, i + 2)
            projs = projs + [("*",)]
            assert s[j] == ")", s[i:]
            i = j + 1
        else:
            (base, projs), j = _place(s, i + 1)
            if s.startswith(" as variant#", j) or s.startswith(" as ", j):
                e = j
                depth = 0
                while not (s[e] == ")" and depth == 0):
                    if s[e] in "(<[":
                        depth += 1
                    elif s[e] in ")>]":
                        depth -= 1
                    e += 1
                name = s[j + 4:e].strip()
                if not name.startswith("subtype "):
                    projs = projs + [("v", name)]
                i = e + 1
            elif s[j] == ".":
                m = re.match(r"\.(\d+): ", s[j:])
                e = close_paren(s, i)
                projs = projs + [("f", int(m.group(1)), s[j + m.end():e])]
                i = e + 1
            else:
                raise ValueError("place: " + s[i:])
    else:
        raise ValueError("place: " + s[i:])
    while i < len(s) and s[i] == "[":
        e = close_paren(s, i)
        inner = s[i + 1:e]
        projs = projs + [("i", int(inner[1:]))] if re.fullmatch(r"_\d+", inner) else projs + [("c", inner)]
        i = e + 1
    return (base, projs), i


def parse_operand(s):
    s = s.strip()
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:])
    if re.fullmatch(r"_\d+", s):
        return ("copy", parse_place(s))
    return ("const", s)


_BIN = {"Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp",
        "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked", "MulUnchecked", "Offset",
        "ShlUnchecked", "ShrUnchecked"}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith(("copy ", "move ")):
        # `move _1 as T (Kind)`
        m = re.match(r"(copy|move) ", s)
        p, i = _place(s, m.end())
        if i == len(s):
            return ("use", (m.group(1), p))
        m2 = re.match(r" as (.*) \(([A-Za-z]\w*(?:\(.*\))?)\)$", s[i:], re.S)
        if m2:
            return ("cast", (m.group(1), p), m2.group(1), m2.group(2))
        raise ValueError("rvalue: " + s)
    if s.startswith("const "):
        m2 = re.match(r"const (.*) as (.*) \(([A-Z]\w*(?:\(.*\))?)\)$", s, re.S)
        if m2 and not s.startswith('const "'):
            return ("cast", ("const", m2.group(1)), m2.group(2), m2.group(3))
        return ("use", ("const", s[6:]))
    if s.startswith("&"):
        m = re.match(r"&(raw const |raw mut |fake shallow |fake |mut |)", s)
        return ("ref", m.group(1).strip(), parse_place(s[m.end():]))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    m = re.match(r"discriminant\((.*)\)$", s, re.S)
    if m:
        return ("disc", parse_place(m.group(1)))
    m = re.match(r"(Len|PtrMetadata|Not|Neg|CopyForDeref|ShallowInitBox)\((.*)\)$", s, re.S)
    if m:
        a = m.group(2)
        if m.group(1) in ("Len", "CopyForDeref"):
            op = ("copy", parse_place(a))
        else:
            op = parse_operand(split_top(a)[0])
        return ("un", m.group(1), op)
    m = re.match(r"([A-Z]\w+)\((.*)\)$", s, re.S)
    if m and m.group(1) in _BIN:
        a, b = split_top(m.group(2))
        return ("bin", m.group(1), parse_operand(a), parse_operand(b))
    if s.startswith("["):
        inner = s[1:-1]
        parts = split_top(inner, ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("agg", "[]", None, [parse_operand(x) for x in split_top(inner)])
    if s.startswith("("):
        return ("agg", "()", None, [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("{"):
        e = close_paren(s, 0)
        name = s[:e + 1]
        rest = s[e + 1:].strip()
        names, ops = [], []
        if rest.startswith("{"):
            for f in split_top(rest[1:-1]):
                k, v = f.split(": ", 1)
                names.append(k); ops.append(parse_operand(v))
        elif rest.startswith("("):
            ops = [parse_operand(x) for x in split_top(rest[1:-1])]
        return ("agg", name, names, ops)
    m2 = re.match(r"([\w:<>, &'\[\]{}#@./-]+?) as (.*) \((PointerCoercion\(.*\)|\w+)\)$", s, re.S)
    if m2:
        return ("cast", ("const", m2.group(1)), m2.group(2), m2.group(3))
    # ADT: path {..} | path(..) | path
    if s.endswith("}"):
        i = _find_open(s, "{")
        names, ops = [], []
        for f in split_top(s[i + 1:-1]):
            k, v = f.split(": ", 1)
            names.append(k); ops.append(parse_operand(v))
        return ("agg", strip_generics(s[:i].strip()), names, ops)
    if s.endswith(")"):
        i = _find_open(s, "(")
        return ("agg", strip_generics(s[:i].strip()), None, [parse_operand(x) for x in split_top(s[i + 1:-1])])
    if s.startswith("no_retag "):
        return parse_rvalue(s[9:])
    return ("agg", strip_generics(s), None, [])


def _find_open(s, ch):
    """offset of the bracket opening the final group of s"""
    cl = {"(": ")", "{": "}"}[ch]
    i, n, depth, ang = 0, len(s), 0, 0
    while i < n:
        c = s[i]
        if c == ch and depth == 0 and ang == 0:
            if close_paren(s, i) == n - 1:
                return i
            i = close_paren(s, i)
        elif c in "([{":
            i = close_paren(s, i)
        elif c == "<":
            ang += 1
        elif c == ">" and s[i - 1] not in "-=":
            ang -= 1
        i += 1
    raise ValueError("no group: " + s)


def parse_call(s):
    """`dest = callee(args) -> [..]` pieces; callee as operand text."""
    i, n, ang = 0, len(s), 0
    while i < n:
        c = s[i]
        if c == "<":
            ang += 1
        elif c == ">" and s[i - 1] not in "-=":
            ang -= 1
        elif c in "([{":
            e = close_paren(s, i)
            if c == "(" and ang == 0 and e == n - 1:
                return s[:i].strip(), [parse_operand(x) for x in split_top(s[i + 1:e])]
            i = e
        i += 1
    raise ValueError("call: " + s)


_TARGETS = re.compile(r" -> (\[(?:return|success|resume|[-0-9]|otherwise).*\]|unwind .*|bb\d+)$")


class Body:
    def __init__(self, path):
        self.path = path
        self._parsed = False
        with open(path) as f:
            self.text = re.sub(r"\bfutures::(?:future::)?Future\b", "std::future::Future", f.read())
        m = re.search(r"^// MIR for `(.*)` after ", self.text, re.M)
        self.name = m.group(1)
        rest = self.text[self.text.index("\n", m.end()):]
        hdr = re.search(r"\S.*?\{$", rest, re.M | re.S).group(0)
        self.header = hdr
        self.args = []
        self.arg_types = {}
        if hdr.startswith("fn "):
            i = self._args_open(hdr)
            e = close_paren(hdr, i)
            for a in split_top(hdr[i + 1:e]):
                k, t = a.split(": ", 1)
                self.args.append(int(k[1:]))
                self.arg_types[int(k[1:])] = t
            mm = re.match(r"\s*-> (.*?)(?:\nyields .*)?\s*\{$", hdr[e + 1:], re.S)
            self.ret = mm.group(1).strip() if mm else "()"
        else:
            self.ret = "?"
        self.is_coroutine = "\nyields" in hdr
        self.pretty = None  # set by Program

    @staticmethod
    def _args_open(h):
        i = 0
        m = re.search(r"\(_1: |\(\) ->", h)
        if m:
            return m.start()
        return h.index("(")

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.locals = dict(self.arg_types)
        self.debug = []
        self.blocks = {}
        self.cleanup = set()
        lines = self.text.split("\n")
        cur = None
        loc = None
        for ln in lines:
            st = ln.strip()
            if not st or st.startswith("//"):
                continue
            if cur is None:
                m = re.match(r"let (?:mut )?_(\d+): (.*?);(?:\s*// .*)?$", st)
                if m:
                    self.locals[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r"debug (.+?) => (.*?);(?:\s*// .*)?$", st)
                if m:
                    try:
                        self.debug.append((m.group(1), ("place", parse_place(m.group(2))) if not m.group(2).startswith("const") else ("const", m.group(2)[6:])))
                    except (ValueError, AssertionError):
                        pass
                    continue
                m = re.match(r"bb(\d+)( \(cleanup\))?: \{", st)
                if m:
                    cur = int(m.group(1))
                    stmts = []
                    if m.group(2):
                        self.cleanup.add(cur)
                continue
            if ln == "    }":
                self.blocks[cur] = (stmts[:-1], stmts[-1])
                cur = None
                continue
            k = st.rfind(" // scope ")
            line = None
            if k >= 0:
                mm = re.search(r" at ([^ ]*?):(\d+):(\d+)", st[k:])
                line = (mm.group(1), int(mm.group(2))) if mm else None
                st = st[:k].rstrip()
            if st.endswith(";"):
                st = st[:-1]
            stmts.append((st, line))
        self.parsed_blocks = {}
        self.edges = None
        return self

    def leads_to(self, blocks):
        """the blocks from which one of the given blocks can be reached"""
        pred, todo = {}, list(blocks)
        for b, (_, term) in self.blocks.items():
            for x in set(re.findall(r"\bbb\d+\b", term[0])):
                pred.setdefault(int(x[2:]), set()).add(b)
        seen = set(todo)
        while todo:
            for x in pred.get(todo.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def block(self, b):
        """(list of (kind,...,line)), terminator tuple"""
        pb = self.parsed_blocks.get(b)
        if pb is None:
            stmts, term = self.blocks[b]
            ps = []
            for st, line in stmts:
                p = self._stmt(st)
                if p:
                    ps.append(p + (line,))
            pb = self.parsed_blocks[b] = (ps, self._term(term[0]) + (term[1],))
        return pb

    @staticmethod
    def _stmt(st):
        if st.startswith(("StorageLive", "PlaceMention", "FakeRead", "AscribeUserType", "Coverage", "nop", "Retag", "ConstEvalCounter", "BackwardIncompatibleDropHint", "Intrinsic", "assume(", "copy_nonoverlapping")):
            return None
        if st.startswith("StorageDead("):
            return ("dead", int(st[13:-1]))
        if st.startswith("Deinit("):
            return None
        m = re.match(r"discriminant\((.*?)\) = (\d+)$", st)
        if m:
            return ("setdisc", parse_place(m.group(1)), int(m.group(2)))
        i = _eq(st)
        return ("assign", parse_place(st[:i]), parse_rvalue(st[i + 3:]))

    @staticmethod
    def _term(st):
        if st == "return":
            return ("return",)
        if st in ("resume", "unreachable", "coroutine_drop") or st.startswith("terminate") or st.startswith("abort"):
            return (st.split("(")[0],)
        m = re.match(r"goto -> bb(\d+)$", st)
        if m:
            return ("goto", int(m.group(1)))
        m = re.match(r"(falseEdge|falseUnwind) -> \[(?:real|real): bb(\d+)", st)
        if m:
            return ("goto", int(m.group(2)))
        m = re.match(r"switchInt\((.*)\) -> \[(.*)\]$", st)
        if m:
            arms, other = [], None
            for a in m.group(2).split(", "):
                k, v = a.split(": ")
                if k == "otherwise":
                    other = int(v[2:])
                else:
                    arms.append((int(k), int(v[2:])))
            return ("switch", parse_operand(m.group(1)), arms, other)
        m = re.match(r"drop\((.*)\) -> \[return: bb(\d+)(?:, unwind:? ?(.*?))?\]$", st)
        if m:
            u = re.match(r"bb(\d+)", m.group(3) or "")
            return ("drop", parse_place(m.group(1)), int(m.group(2)), int(u.group(1)) if u else None)
        m = re.match(r"assert\((!?)((?:copy|move|const) .*?), \"(.*)\".*\) -> \[success: bb(\d+)(?:, unwind:? ?(.*?))?\]$", st)
        if m:
            u = re.match(r"bb(\d+)", m.group(5) or "")
            return ("assert", bool(m.group(1)), parse_operand(m.group(2)), int(m.group(4)), int(u.group(1)) if u else None, m.group(3))
        m = _TARGETS.search(st)
        if not m:
            raise ValueError("terminator: " + st[:300])
        tgt, head = m.group(1), st[:m.start()]
        ret = re.search(r"(?:return|resume): bb(\d+)", tgt)
        if tgt.startswith("bb"):
            ret = re.match(r"bb(\d+)", tgt)
        u = re.search(r"unwind: bb(\d+)", tgt)
        i = _eq(head)
        dest = parse_place(head[:i])
        rhs = head[i + 3:]
        my = re.match(r"yield\((.*)\)$", rhs)
        if my:
            d = re.search(r"drop: bb(\d+)", tgt)
            return ("yield", dest, parse_operand(my.group(1)), int(ret.group(1)), int(d.group(1)) if d else None)
        callee, args = parse_call(rhs)
        return ("call", dest, callee, args, int(ret.group(1)) if ret else None, int(u.group(1)) if u else None)

    def local_name(self, n):
        self.parse()
        for k, p in self.debug:
            if p == ("place", (n, [])):
                return k
        return f"_{n}"


def _eq(st):
    """offset of the ` = ` that ends the destination place"""
    i, depth = 0, 0
    while True:
        c = st[i]
        if c in "([":
            i = close_paren(st, i)
        elif st.startswith(" = ", i):
            return i
        i += 1


class Program:
    def __init__(self, unit):
        self.unit = unit
        self.kind = unit.kind
        self.bodies = {}     # raw name -> Body
        self.promoted = {}   # raw name -> {idx: Body}
        self.by_pretty = {}
        self.by_self = {}    # type text of _1 for closures/coroutines -> Body
        self.src = {}
        self.defs = rustsrc.type_defs(unit.expanded)
        if unit.kind == "full":
            stub = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stub", "openworkers_core.rs")
            for k, d in rustsrc.type_defs(open(stub).read()).items():
                self.defs.setdefault("openworkers_core::" + k, d)
        for n in sorted(os.listdir(unit.mirdir)):
            if not n.endswith(".ElaborateDrops.after.mir") or "__CALLSITE" in n or "_V8_FAST_CALL" in n:
                continue
            m = re.search(r"-promoted\[(\d+)\]\.", n)
            b = Body(os.path.join(unit.mirdir, n))
            if m:
                self.promoted.setdefault(re.sub(r"^promoted\[\d+\] in |::promoted\[\d+\]$", "", b.name), {})[int(m.group(1))] = b
                b.pretty = b.name
                continue
            self.bodies[b.name] = b
            b.pretty = self._pretty(b.name)
            self.by_pretty.setdefault(b.pretty, b)
            if b.args:
                t = b.arg_types[b.args[0]]
                t0 = re.sub(r"^&(?:'\w+ )?(?:mut )?", "", t)
                if t0.startswith("{"):
                    self.by_self[t0] = b

    def source(self, rel):
        if rel not in self.src:
            self.src[rel] = open(os.path.join(self.unit.dir, rel)).read()
        return self.src[rel]

    def _pretty(self, name):
        def sub(m):
            f, l, c = m.group(1), int(m.group(2)), int(m.group(3))
            try:
                ty, tr = rustsrc.impl_header(self.source(f), l, c)
            except Exception:
                return m.group(0)
            if ty is None:
                return f"<derive {tr}:{l}:{c}>"
            ty = ty.split("<")[0]
            return f"<{ty} as {tr.split('<')[0]}>" if tr else ty
        return re.sub(r"<impl at ([^:>]*):(\d+):(\d+): \d+:\d+>", sub, name)

    def fields(self, ty, variant=None):
        d = self.adt(ty)
        if not d:
            return None
        if variant is None:
            return [f[0] for f in d["variants"][0][1]] if d["kind"] != "enum" else None
        for v, fs in d["variants"]:
            if v == variant:
                return [f[0] for f in fs]
        return None

    def adt(self, ty):
        h = type_head(ty)
        return self.defs.get(h)

    def variants(self, ty):
        h = type_head(ty)
        if h in STD_VARIANTS:
            return STD_VARIANTS[h]
        d = self.defs.get(h)
        if d and d["kind"] == "enum":
            return [v[0] for v in d["variants"]]
        return None

    def find(self, suffix):
        """bodies whose pretty name ends with ::suffix"""
        r = [b for p, b in self.by_pretty.items() if p == suffix or p.endswith("::" + suffix)]
        return r
