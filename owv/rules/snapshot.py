"""P31: code-cache containers (pack, unpack, recognise, use)."""
import re
from .. import flow, ineq
from ..check import check, Missing
from ..rlib import *
from .limits import deref_all, last

L = ("len", "data")
UTF = re.compile(r"(?:core|std)::str::(?:\w+::)*from_utf8$")
CHUNK = re.compile(r"(?:core|std)::slice::(?:first_chunk|split_first_chunk)$")
WORD = {"from_le_bytes": "le", "from_be_bytes": "be", "from_ne_bytes": "le", "to_le_bytes": "le", "to_be_bytes": "be", "to_ne_bytes": "le"}


def call(t, *names):
    return t[0] == "call" and last(t[1]) in names


def whole(t):
    return t[0] in ("agg", "fn", "c") and str(t[1]).endswith("RangeFull")


def strip(t):
    while isinstance(t, tuple) and t and (t[0] in ("ptr", "deref", "mut") and len(t) > 1 and isinstance(t[1], tuple) or call(t, "index") and len(t[2]) == 2 and whole(t[2][1]) or call(t, "deref", "as_ref", "as_bytes", "as_slice", "borrow", "into", "from", "copied", "cloned", "to_owned", "clone") and len(t[2]) == 1):
        t = t[1] if t[0] != "call" else t[2][0]
    return t


class Geometry:
    """what a function knows about positions in its byte-string argument"""

    def __init__(self, base):
        self.base = base

    # ---- positions
    def span(self, t):
        """[lo, hi) of the argument that a slice term denotes, or None"""
        t = strip(t)
        if t == self.base:
            return {}, {L: 1}
        if t[0] == "fld" and t[2] in ("0", "1") and call(strip(t[1]), "split_at", "split_at_unchecked"):
            c = strip(t[1])
            s = self.span(c[2][0])
            if s:
                m = ladd(s[0], self.num(c[2][1]))
                return (s[0], m) if t[2] == "0" else (m, s[1])
        if t[0] == "fld" and t[2] in ("0", "1"):
            p = strip(t[1])
            if p[0] == "fld" and p[2] == "Some.0":
                c = strip(p[1])
                if call(c, "split_at_checked"):
                    return self.span(("fld", ("call", "split_at", c[2], None), t[2]))
                if call(c, "split_first_chunk") and len(c[2]) == 2:
                    return self.span(("fld", ("call", "split_at", c[2], None), t[2]))
        if t[0] == "fld" and t[2] == "Some.0":
            c = strip(t[1])
            if call(c, "get"):
                return self.cut(c[2][0], c[2][1])
            if call(c, "strip_prefix"):
                s, n = self.span(c[2][0]), self.width(c[2][1])
                return (ladd(s[0], {None: n}), s[1]) if s and n else None
            if call(c, "first_chunk") and len(c[2]) == 2:
                s = self.span(c[2][0])
                return (s[0], ladd(s[0], self.num(c[2][1]))) if s else None
        if t[0] == "fld" and t[2] == "Ok.0":
            c = strip(t[1])
            if call(c, "try_into", "try_from") and self.span(c[2][0]):
                return self.span(c[2][0])
        if call(t, "index") and len(t[2]) == 2:
            return self.cut(t[2][0], t[2][1])
        if call(t, "subslice_", "get_unchecked"):
            return None
        return None

    def cut(self, v, r):
        s = self.span(v)
        r = strip(r)
        if not s:
            return None
        if r[0] == "agg":
            k = r[1].split("::")[-1] if "::" in r[1] else r[1]
            f = dict(zip(r[4] or (), r[3])) if len(r) == 5 and r[4] else {}
            lo = ladd(s[0], self.num(f["start"])) if "start" in f else s[0]
            hi = ladd(s[0], self.num(f["end"])) if "end" in f else s[1]
            if "Inclusive" in k:
                return None
            if not f and "RangeFull" not in k:
                return None
            return lo, hi
        return None

    def width(self, t):
        t = strip(t)
        return 4 if call(t, "to_le_bytes", "to_be_bytes", "to_ne_bytes") else None

    # ---- numbers
    def num(self, t):
        t = strip(t)
        if t[0] == "op" and t[1] in ("Add", "Sub"):
            return ladd(self.num(t[2]), self.num(t[3]), 1 if t[1] == "Add" else -1)
        if t[0] == "fld" and t[2] in ("Some.0", "Ok.0"):
            c = strip(t[1])
            if call(c, "checked_add", "checked_sub") and len(c[2]) == 2:
                return ladd(self.num(c[2][0]), self.num(c[2][1]), 1 if call(c, "checked_add") else -1)
            if call(c, "try_into", "try_from") and not self.span(c[2][0]):
                return self.num(c[2][0])
        if call(t, "len") or t[0] == "un" and t[1] == "PtrMetadata":
            s = self.span(t[2][0] if t[0] == "call" else t[2])
            if s:
                return ladd(s[1], s[0], -1)
        if t[0] == "call" and last(t[1]).startswith("from_") and last(t[1]) in WORD:
            at = self.bytes4(t[2][0])
            if at is not None:
                return {("u32", WORD[last(t[1])], at): 1}
        if t[0] == "op" and t[1] == "Mul":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if strip(a)[0] == "c" and isinstance(strip(a)[1], int):
                    return {k: v * strip(a)[1] for k, v in self.num(b).items()}
        return lin(t) if t[0] == "c" else {t: 1}

    def bytes4(self, t):
        """the constant offset of the four argument bytes that an array term holds"""
        t = strip(t)
        if t[0] == "agg" and len(t[3]) == 4:
            at = [x[2][1] if x[0] == "idx" and x[2][0] == "c" and self.span(x[1]) == ({}, {L: 1}) else None for x in map(strip, t[3])]
            return at[0] if None not in at and at == list(range(at[0], at[0] + 4)) else None
        s = self.span(t)
        if s and not [x for x in s[0] if x is not None] and ladd(s[1], s[0], -1) == {None: 4}:
            return s[0].get(None, 0)
        return None

    # ---- facts
    def within(self, v, r):
        """inequalities that make v[r] valid"""
        s, c = self.span(v), self.cut(v, r)
        if not s or not c:
            return None
        return [ineq.geq(c[0], s[0]), ineq.geq(c[1], c[0]), ineq.geq(s[1], c[1])]

    def never(self, goals):
        """alternatives of the negation of a conjunction"""
        return [[{k: -c for k, c in ladd(g, {None: 1}).items()}] for g in goals]

    def equal(self, a, b):
        return [ineq.geq(a, b), ineq.geq(b, a)]

    def unequal(self, a, b):
        return [[ineq.geq(a, b, -1)], [ineq.geq(b, a, -1)]]

    def literal(self, a, b):
        """(constraint numbers) of a comparison of four argument bytes with an encoded word"""
        for x, y in ((a, b), (b, a)):
            x = strip(x)
            if self.width(x):
                s = self.span(y)
                if s and not [k for k in s[0] if k is not None]:
                    return s, {("u32", WORD[last(x[1])], s[0].get(None, 0)): 1}, self.num(x[2][0])
        return None

    def alternatives(self, facts):
        """the facts as a conjunction of alternatives of inequalities, and the spans known not to be UTF-8"""
        out, bad = [[[{L: 1}]]], []
        for t, v in facts:
            if t[0] == "disc":
                c = strip(t[1])
                if isinstance(v, tuple):
                    continue
                ok = v == (0 if call(c, "try_into", "try_from", "from_utf8") else 1)
                if call(c, "get") and len(c[2]) == 2:
                    w = self.within(*c[2])
                    if w:
                        out.append([w] if ok else self.never(w))
                elif call(c, "split_at_checked", "first_chunk", "split_first_chunk") and len(c[2]) == 2:
                    s = self.span(c[2][0])
                    if s:
                        w = [ineq.geq(ladd(s[1], s[0], -1), self.num(c[2][1]))]
                        out.append([w] if ok else self.never(w))
                elif call(c, "strip_prefix"):
                    s, n = self.span(c[2][0]), self.width(c[2][1])
                    k = self.literal((c[2][1]), ("fld", ("call", "first_chunk", (c[2][0], ("c", 4)), None), "Some.0"))
                    if s and k:
                        w = [ineq.geq(ladd(s[1], s[0], -1), {None: n})]
                        out.append([w + self.equal(k[1], k[2])] if ok else self.never(w) + self.unequal(k[1], k[2]))
                elif call(c, "checked_add", "checked_sub") and len(c[2]) == 2:
                    if call(c, "checked_sub"):
                        w = [ineq.geq(self.num(c[2][0]), self.num(c[2][1]))]
                        out.append([w] if ok else self.never(w))
                    elif not ok:
                        out.append([[ineq.geq(ladd(self.num(c[2][0]), self.num(c[2][1])), {None: 1 << 64})]])
                elif call(c, "try_into", "try_from"):
                    s = self.span(c[2][0])
                    if s and len(c[2]) == 2:
                        n = ladd(s[1], s[0], -1)
                        out.append([self.equal(n, self.num(c[2][1]))] if ok else self.unequal(n, self.num(c[2][1])))
                    elif not s and not ok:
                        out.append([[ineq.geq(self.num(c[2][0]), {None: 1 << 63})]])
                elif UTF.search(c[1]) and not ok if c[0] == "call" else False:
                    s = self.span(c[2][0])
                    if s:
                        bad.append(s)
                continue
            while t[0] == "un" and t[1] == "Not":
                t, v = t[2], not v
            if call(t, "is_empty"):
                s = self.span(t[2][0])
                if s:
                    w = self.equal(s[1], s[0])
                    out.append([w] if v else [[ineq.geq(s[1], s[0], -1)]])
                continue
            if call(t, "starts_with"):
                out += self.alternatives([(("disc", ("call", "strip_prefix", t[2], None)), 1 if v else 0)])[0][1:]
                continue
            if call(t, "eq", "ne") and len(t[2]) == 2:
                t = ("op", "Eq" if call(t, "eq") else "Ne", t[2][0], t[2][1])
            if t[0] == "op" and t[1] in ("Eq", "Ne") and t[2][0] == t[3][0] == "agg":
                if t[2][1] != t[3][1]:
                    if v == (t[1] == "Eq"):
                        out.append([])
                elif len(t[2][3]) == len(t[3][3]) == 1:
                    a, b = self.alternatives([(("op", t[1], t[2][3][0], t[3][3][0]), v)])
                    out += a[1:]
                continue
            if t[0] == "op" and t[1] in ("Eq", "Ne"):
                k = self.literal(t[2], t[3])
                if k:
                    four = self.equal(ladd(k[0][1], k[0][0], -1), {None: 4})
                    out.append([four + self.equal(k[1], k[2])] if v == (t[1] == "Eq") else self.unequal(k[1], k[2]) + self.unequal(ladd(k[0][1], k[0][0], -1), {None: 4}))
                    continue
                if v != (t[1] == "Eq"):
                    if any(self.span(x) for x in t[2:4]):
                        continue
                    out.append(self.unequal(self.num(t[2]), self.num(t[3])))
                    continue
            i = ineq.from_fact(t, v, self.num)
            if i:
                out.append([i])
        return out, bad

    def worlds(self, alts, extra=()):
        """every combination of alternatives, with what holds of every number"""
        todo = [list(extra)]
        for a in alts:
            todo = [w + x for w in todo for x in a]
            if len(todo) > 256:
                raise Missing("cases", "too many cases")
        for w in todo:
            syms = {s for i in w for s in i if isinstance(s, tuple) and s[0] in ("u32", "len", "packed")}
            yield w + [{s: 1} for s in syms] + [{s: -1, None: (1 << (32 if s[0] == "u32" else 62)) - 1} for s in syms]

    def impossible(self, alts, extra=()):
        return all(ineq.contradictory(w) for w in self.worlds(alts, extra))

    def ranges(self, goals):
        """mentions every number of the goals, so that its range is known"""
        return [{s: 0} for g in goals for s in g if s is not None]

    def proved(self, alts, goals):
        return all(ineq.contradictory(w) or all(ineq.holds(w, g) for g in goals) for w in self.worlds(alts, self.ranges(goals))) if goals is not None else False


class Accesses(Rec):
    """every access to the bytes, with what was known at that moment"""

    def __init__(self, base):
        super().__init__(self.record, keep=lambda *a: True, limit=40, call=self.sized)
        self.g, self.seen = Geometry(base), []

    def record(self, e, st, kind, name, args, res):
        if kind == "call":
            n = last(name)
            if n in ("index", "split_at", "get_unchecked", "from_utf8_unchecked", "from_raw_parts", "copy_from_slice"):
                self.seen.append((n, args, dict(st.facts), where(st)))

    def sized(self, e, st, ci):
        m = re.search(r"::<\s*(\d+)\s*>", ci.text) if CHUNK.match(ci.path) else re.search(r"\[u8; (\d+)\]", ci.text) if ci.path.endswith(("TryInto::try_into", "TryFrom::try_from")) else None
        if m and len(ci.vals) == 1:
            return e.finish(st, ci, ("call", ci.path, (e.strip(st, ci.vals[0]), ("c", int(m.group(1)))), st.site()))
        return None

    def on_assert(self, e, st, t):
        c = e.strip(st, e.operand(st, t[2]))
        if "index out of bounds" in t[5] and c[0] == "op":
            self.seen.append(("element", (c,), dict(st.facts), where(st)))
        elif " - " in t[5] and t[2][0] in ("copy", "move"):
            v = self.value(e, st, t)
            if v[0] == "op" and v[1] == "Sub":
                self.seen.append(("subtract", v[2:4], dict(st.facts), where(st)))
        elif (" + " in t[5] or " * " in t[5]) and t[2][0] in ("copy", "move"):
            v = self.value(e, st, t)
            m = re.match(r"\(([ui])(\d+|size), bool\)", st.top.body.locals.get(t[2][1][0]) or "")
            if v[0] == "op" and m:
                bits = (64 if m.group(2) == "size" else int(m.group(2))) - (m.group(1) == "i")
                self.seen.append(("sum", (v, ("c", bits)), dict(st.facts), where(st)))

    def value(self, e, st, t):
        return e.strip(st, e.operand(st, (t[2][0], (t[2][1][0], t[2][1][1][:-1] + [("f", 0, "usize")]))))

    def on_panic(self, e, st, ci, x):
        f = {k: v for k, v in st.facts.items() if k != ("disc", x)}
        self.seen.append(("unwrap", (x,), f, where(st)))


def accesses(ctx, R, name):
    g = R.g
    for kind, a, facts, w in R.seen:
        alts, _ = g.alternatives(facts.items())
        if kind == "index":
            ok = g.proved(alts, g.within(*a[:2]))
        elif kind == "split_at":
            s = g.span(a[0])
            ok = s is not None and g.proved(alts, [ineq.geq(ladd(s[1], s[0], -1), g.num(a[1]))])
        elif kind == "element":
            ok = g.proved(alts, ineq.from_fact(a[0], True, g.num))
        elif kind == "subtract":
            ok = g.proved(alts, [ineq.geq(g.num(a[0]), g.num(a[1]))])
        elif kind == "sum":
            ok = g.proved(alts, [ineq.geq({None: (1 << a[1][1]) - 1}, g.num(a[0]))])
        elif kind == "unwrap":
            x = a[0]
            bad = g.alternatives(list(facts.items()) + [(("disc", x), 1 if call(x, "try_into", "try_from", "from_utf8") else 0)])
            ok = len(bad[0]) > len(alts) and g.impossible(bad[0])
        elif kind == "copy_from_slice":
            continue
        else:
            ok = False
        ctx.require(ok, "bounds", f"{name}:{kind}", f"{name} {dict(subtract='subtracts', unwrap='unwraps', sum='adds').get(kind, 'reads')} {', '.join(flow.show(x) for x in a)} without knowing that this is within the data", w)


def pieces(st, r):
    """the byte strings a packed buffer consists of, in order"""
    base = strip(r)
    if call(base, "concat") or call(base, "join") and False:
        x = strip(base[2][0])
        return list(x[3]) if x[0] == "agg" else None
    if call(base, "to_vec", "from") and base[2]:
        out = [base[2][0]]
    elif call(base, "with_capacity", "new"):
        out = []
    elif base[0] in ("call", "arg"):
        out = [base]
    else:
        return None
    for n, a in st.trace:
        if strip(a[0]) != base:
            if any(base == strip(x) for x in a if isinstance(x, tuple)):
                return None
            continue
        if n in ("extend_from_slice", "extend", "append", "write_all", "write"):
            out.append(a[1])
        elif n in ("reserve", "reserve_exact", "shrink_to_fit", "len", "capacity", "as_slice"):
            continue
        else:
            return None
    return out


def is_len(t, src):
    t = strip(t)
    while t[0] in ("cast", "as") or t[0] == "fld" and t[2] in ("Ok.0",) or call(t, "try_from", "try_into", "unwrap_or") or t[0] == "un" and t[1].startswith("as "):
        if t[0] == "un" and t[1][3:] not in ("u32", "u64", "usize", "u128", "i64"):
            return False
        n = [x for x in t[1:] if isinstance(x, tuple)]
        if t[0] == "call":
            n = [t[2][0]]
        if not n:
            return False
        t = strip(n[0])
    return call(t, "len") and strip(t[2][0]) == src


@check("P31", "linear bounds inference over MIR paths: every slice of the container proved in range by the facts known at that point; pack and unpack compared as layouts",
       "source text longer than 4 GiB is outside the format; that V8 itself validates the bytecode it is given is trusted.")
def p31(ctx):
    """Unpacking and recognising a container are explored on all paths; every slice, index, subtraction and unwrap must be
    shown, from the comparisons made before it, to stay within the data (linear integer arithmetic over the data's length and
    the stored length). A result may only be given under the right marker, and must be exactly the stored-length bytes behind
    the header, checked as UTF-8, and all the rest; a refusal must contradict a well-formed container, i.e. follow from a wrong
    marker, a too short or inconsistent length, or text that is not UTF-8. Packing must write marker, length, source and cache, in
    this order, and nothing else. Wherever compiled bytecode is given to V8, bytecode and source must come from the same
    unpacked container."""
    p = ctx.prog("full")
    marker = pack(ctx, p)
    unpack(ctx, p, marker)
    use(ctx, p)


def body(p, name):
    b = p.by_pretty.get("snapshot::" + name)
    if b is None:
        raise Missing(f"fn:{name}", f"snapshot::{name} not found")
    return b


def pack(ctx, p):
    b = body(p, "pack_code_cache")
    e = ctx.paths(p, b, Rec(lambda e, st, k, n, a, r: (last(n), a) if k == "call" and a else None, limit=20))
    src, cache = (("arg", b.local_name(a)) for a in b.args[:2])
    marker = None
    n = 0
    for k, st, r in e.exits:
        if k != "return":
            continue
        n += 1
        ps = pieces(st, r)
        if not ctx.require(ps is not None, "pack", "pieces", f"what is packed cannot be told from {flow.show(r)}", b.pretty):
            continue
        show = " | ".join(flow.show(x) for x in ps)
        ps = [strip(x) for x in ps]
        if len(ps) == 4 and call(ps[1], "to_le_bytes") and ps[1][2][0] == ("c", (1 << 32) - 1):
            continue    # the length of more than 4 GiB of source
        ok = len(ps) == 4 and call(ps[0], "to_le_bytes") and call(ps[1], "to_le_bytes") and is_len(ps[1][2][0], src) and ps[2] == src and ps[3] == cache
        if ctx.require(ok, "pack", "layout", f"the container is packed as {show}, not as marker | source length | source | cache", b.pretty):
            marker = ps[0][2][0]
    ctx.require(marker is not None or n == 0, "pack", "length", "no path packs the length of the source", b.pretty)
    ctx.require(n > 0, "pack", "paths", "packing never returns", b.pretty)
    return marker


def unpack(ctx, p, marker):
    for name in ("unpack_code_cache", "is_code_cache"):
        b = body(p, name)
        base = ("arg", b.local_name(b.args[0]))
        R = Accesses(base)
        e = ctx.paths(p, b, R)
        g = R.g
        ctx.counts[f"accesses in {name}"] = len(R.seen)
        accesses(ctx, R, name)
        if marker is None:
            continue
        S, C = ("packed", "source"), ("packed", "cache")
        magic = g.equal({("u32", "le", 0): 1}, g.num(marker))
        packed = magic + g.equal({L: 1}, {None: 8, S: 1, C: 1}) + g.equal({("u32", "le", 4): 1}, {S: 1})
        n = 0
        for k, st, r in e.exits:
            if k != "return":
                continue
            facts = list(st.facts.items())
            for value, extra in outcomes(e, st, r):
                alts, bad = g.alternatives(facts + extra)
                if g.impossible(alts):
                    continue
                n += 1
                w = f"{b.pretty} under {flow.show_facts(st)}"
                if value in (None, False):
                    text = any(g.proved(alts + [[packed]], [x for q in (g.equal(lo, {None: 8}), g.equal(hi, {None: 8, S: 1})) for x in q]) for lo, hi in bad)
                    ctx.require(text or g.impossible(alts, packed), name, "refused", "a well-formed container can be refused", w)
                    continue
                ctx.require(g.proved(alts, magic), name, "marker", "data without the marker is accepted", w)
                if value is True:
                    continue
                src, cache = value
                t = src
                ok = t[0] == "fld" and t[2] == "Ok.0" and t[1][0] == "call" and UTF.search(t[1][1])
                if ctx.require(ok, name, "utf8", f"the source {flow.show(src)} is not checked text", w):
                    s = g.span(t[1][2][0])
                    end = {None: 8, ("u32", "le", 4): 1}
                    ctx.require(s is not None and g.proved(alts, g.equal(s[0], {None: 8}) + g.equal(s[1], end)), name, "source", f"the source {flow.show(src)} is not the stored-length bytes behind the header", w)
                    s = g.span(cache)
                    ctx.require(s is not None and g.proved(alts, g.equal(s[0], end) + g.equal(s[1], {L: 1})), name, "cache", f"the cache {flow.show(cache)} is not the rest of the data", w)
        ctx.require(n > 1, name, "paths", f"{name} never accepts or never refuses", b.pretty)


def outcomes(e, st, r):
    r = e.strip(st, r)
    if r[0] == "c" and isinstance(r[1], bool):
        return [(r[1], [])]
    if r[0] == "agg" and r[1].endswith("::None"):
        return [(None, [])]
    if r[0] == "agg" and r[1].endswith("::Some"):
        x = e.strip(st, r[3][0])
        if x[0] == "agg" and len(x[3]) == 2:
            return [((strip(x[3][0]), strip(x[3][1])), [])]
        raise Missing("result", f"the result {flow.show(r)} cannot be taken apart")
    if r[0] in ("op", "un", "call"):
        return [(True, [(r, True)]), (False, [(r, False)])]
    raise Missing("result", f"the result {flow.show(r)} is not understood")


def use(ctx, p):
    sites = {b.pretty: b for b, _, _ in callers(p, r"Source::new_with_cached_data$") if "::tests::" not in b.pretty}
    ctx.floor("functions that hand bytecode to V8", len(sites), 1)
    # helpers that are given source and bytecode are followed from the function that unpacks them
    chain, todo = dict(sites), list(sites.values())
    opens = {b.pretty: b for b, _, _ in callers(p, r"unpack_code_cache$")}
    while todo:
        b = todo.pop()
        if b.pretty in opens:
            continue
        for c, _, _ in callers(p, re.escape(b.pretty) + "$"):
            if c.pretty not in chain:
                chain[c.pretty] = c
                todo.append(c)
    reached = set()
    for name, b in list(chain.items()):
        if name in opens or not any(c.pretty in chain for c, _, _ in callers(p, re.escape(name) + "$")):
            pairs(ctx, p, b, chain, reached)
    ctx.require(set(sites) <= reached, "use", "reached", f"the use of the bytecode in {sorted(set(sites) - reached)} is not reached", "")


def pairs(ctx, p, b, chain, reached):
    R = Rec(lambda e, st, k, n, a, r: ("use", a, st.top.body.pretty) if k == "call" and n.endswith("new_with_cached_data") else None, inline=lambda c: c.pretty in chain)
    e = ctx.paths(p, b, R, max_states=60000)
    for k, st, r in e.exits:
        for ev in st.trace:
            reached.add(ev[2])
            text = [x for x in flow.walk(ev[1][0]) if part(x, "0")]
            code = [x for x in flow.walk(ev[1][-1]) if part(x, "1")]
            w = f"{b.pretty}: source {flow.show(ev[1][0])}, bytecode {flow.show(ev[1][-1])}"
            ctx.require(bool(text) and bool(code) and text[0][1] == code[0][1], "use", "pair", "bytecode is given to V8 with a source that is not the one it was packed with", w)


def part(x, i):
    return isinstance(x, tuple) and len(x) >= 3 and x[0] == "fld" and x[2] == i and any(isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) == "unpack_code_cache" for y in flow.walk(x[1]))
