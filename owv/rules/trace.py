"""P11: memory tracing, derived and built in."""
import itertools, re
from .. import build, flow, mir
from ..check import check, Missing
from ..rlib import *

PRE = """#![allow(dead_code)]
extern crate self as openworkers_runtime_v8;
pub trait GcTraceable { fn external_memory_size(&self) -> usize; }
pub mod other { pub trait GcTraceable { fn external_memory_size(&self) -> usize; }
  pub struct L(pub usize); impl GcTraceable for L { fn external_memory_size(&self) -> usize { self.0 } } }
pub struct L(pub usize);
impl GcTraceable for L { fn external_memory_size(&self) -> usize { self.0 } }
pub struct N;
pub trait Bound {}
"""


def shapes():
    """(name, source, tracked field keys): every shape up to four fields, and shapes with what real structs carry"""
    k = 0
    for named in (True, False):
        for n in range(5):
            for m in itertools.product((False, True), repeat=n):
                k += 1
                fs = []
                for i, t in enumerate(m):
                    a = "#[gc(track)] " if t else ""
                    ty = "L" if t else "N"
                    fs.append(f"{a}pub f{i}: {ty}" if named else f"{a}pub {ty}")
                body = "{ " + ", ".join(fs) + " }" if named else "(" + ", ".join(fs) + ");"
                yield f"A{k}", f"#[derive(gc_derive::GcTraceable)] pub struct A{k} {body}", [f"f{i}" if named else str(i) for i, t in enumerate(m) if t]
    wide = [i % 3 != 1 for i in range(14)]
    yield "W1", "#[derive(gc_derive::GcTraceable)] pub struct W1(" + ", ".join(("#[gc(track)] L" if t else "N") for t in wide) + ");", [str(i) for i, t in enumerate(wide) if t]
    yield "W2", "#[derive(gc_derive::GcTraceable)] pub struct W2 {" + ", ".join(f"{'#[gc(track)] ' if t else ''}g{i}: {'L' if t else 'N'}" for i, t in enumerate(wide)) + "}", [f"g{i}" for i, t in enumerate(wide) if t]
    yield "U1", "#[derive(gc_derive::GcTraceable)] pub struct U1;", []
    yield "U2", "#[derive(gc_derive::GcTraceable)] pub struct U2 {}", []
    yield "D1", "#[derive(gc_derive::GcTraceable)] /** doc */ pub struct D1 { /** text */ #[gc(track)] a: L, #[gc(track)] /** text */ #[allow(unused)] b: L, /** text */ c: N, #[allow(unused)] #[gc(track)] pub(crate) r#type: L }", ["a", "b", "type"]
    yield "G1", "#[derive(gc_derive::GcTraceable)] pub struct G1<'a, T: GcTraceable, const K: usize> where T: Bound { #[gc(track)] a: T, b: &'a [u8; K], #[gc(track)] c: L }", ["a", "c"]
    yield "G2", "#[derive(gc_derive::GcTraceable)] pub struct G2<T>(N, #[gc(track)] T, #[gc(track)] T) where T: GcTraceable;", ["1", "2"]
    yield "S1", "#[derive(gc_derive::GcTraceable)] pub struct S1 { #[gc(track)] amount: L, #[gc(track)] len: L, #[gc(track)] self_: L, #[gc(track)] value: L }", ["amount", "len", "self_", "value"]
    yield "O1", "#[derive(gc_derive::GcTraceable)] pub struct O1 { #[gc(track)] a: L, b: L, c: L }", ["a"]
    yield "C1", "#[derive(gc_derive::GcTraceable)] #[gc(crate_path = \"crate::other\")] pub struct C1 { #[gc(track)] a: other::L, b: N, #[gc(track)] c: other::L }", ["a", "c"]
    yield "C2", "#[derive(gc_derive::GcTraceable)] #[allow(unused)] #[gc(crate_path = \"crate::other\")] pub struct C2(N, #[gc(track)] other::L);", ["1"]


def stop_sizes(p):
    """do not look into other implementations of the trait"""
    return lambda b: not b.pretty.endswith("external_memory_size")


def leafs(t):
    """decompose a sum into size-of-part calls, size_of and capacity terms"""
    return lin(t)


def expansions(ctx, p, want):
    """the size returned by each expansion is the sum over the marked fields; names of the structs analysed"""
    done = set()
    for b in p.bodies.values():
        if not b.name.endswith("::external_memory_size") or not b.args:
            continue
        m = re.match(r"&(?:'\w+ )?(\w+)", b.arg_types[b.args[0]].replace("crate::", ""))
        if not m or m.group(1) not in want or "other::" in b.arg_types[b.args[0]]:
            continue
        n = m.group(1)
        done.add(n)
        b.parse()
        me = ("arg", b.local_name(b.args[0]))
        stop = Rec(lambda e, st, k, nm, a, r: ("call", nm, a) if k == "call" else None, limit=50)
        stop.inline = lambda x: False
        e = ctx.paths(p, b, stop)
        for k, st, r in e.exits:
            if k != "return":
                continue
            d = lin(r)
            got = []
            for s, c in d.items():
                f = place_of(s[2][0]) if s is not None and s[0] == "call" and s[1].endswith("GcTraceable::external_memory_size") else None
                if f is not None and f[0] == "fld" and f[1] == me:
                    got += [f[2].replace('r#', '')] * c
                else:
                    got.append(f"{c}*{flow.show(s) if s else 1}")
            ctx.require(sorted(got) == sorted(want[n][0]), "sum", "derive", f"struct {n} marks {want[n][0]} but its size is the sum of {got}: {want[n][1][:200]}", f"expansion of derive(GcTraceable) for {n}")
    return done


@check("P11", "symbolic evaluation of the derive's expansion on enumerated struct shapes, compile-fail witnesses, dataflow over MIR for the built-in implementations",
       "Shapes are enumerated (all subsets of up to four fields, wide, generic and attribute-carrying structs), not all structs; the expansion of each is analysed, never run.")
def p11(ctx):
    """The macro is compiled from the current source and expanded by rustc on enumerated struct shapes; in the MIR of each
    expansion the returned value must be the plain sum of one size term per marked field and nothing else.  Enums and unions
    must be rejected with the macro's own error.  Each built-in implementation must count its own allocation plus its contents."""
    out = build.scratch()
    macro = build.derive_macro(out)
    sh = list(shapes())
    u, errs = build.witness(PRE + "\n".join(s for _, s, _ in sh), macro)
    if u is None:
        lines = (PRE + "\n".join(s for _, s, _ in sh)).split("\n")
        for m, sp in errs[:6]:
            src = lines[sp[0][1] - 1] if sp else ""
            ctx.fail(f"expands:{(re.search(r'struct (\w+)', src) or [0, '?'])[1]}", f"the derive fails on a struct it should support: {m}: {src[:160]}")
        return
    # an attribute that is not the marker does not mark; rejecting it would be fine too
    other = "#[derive(gc_derive::GcTraceable)] pub struct Z { #[gc(untracked)] a: L, #[gc(track)] b: L }"
    zu, _ = build.witness(PRE + other, macro)
    if zu is not None:
        expansions(ctx, mir.Program(zu), {"Z": (["b"], other)})
    done = expansions(ctx, mir.Program(u), {n: (k, x) for n, x, k in sh})
    ctx.floor("derived implementations analysed", len(done), len(sh))
    for kind, src in (("enum", "pub enum X { A(L), B { #[gc(track)] a: L } }"), ("empty enum", "pub enum X {}"), ("enum", "pub enum X { A }"), ("union", "pub union X { #[gc(track)] a: u32, b: f32 }")):
        u, errs = build.witness(PRE + "#[derive(gc_derive::GcTraceable)] " + src, macro, mir=False)
        u2, errs2 = build.witness(PRE + src.replace("#[gc(track)] ", ""), macro, mir=False)
        if u2 is None:
            raise Missing("witness", f"the control program does not compile: {errs2[:1]}")
        ctx.require(u is None, "rejected", kind, f"the derive accepts an {kind}: {src}", src)
        ctx.require(u is not None or not any("E0046" in m or "panicked" in m for m, _ in errs), "rejected", f"{kind}:how", f"the derive fails on an {kind} without rejecting it: {errs[:1]}", src)
    builtins(ctx)


CONT = {"Vec": "vec", "String": "flat", "bytes::Bytes": "flat", "Bytes": "flat", "Option": "option", "Box": "box", "std::rc::Rc": "shared", "std::sync::Arc": "shared", "Rc": "shared", "Arc": "shared"}


class Sizes(Rec):
    """size terms of parts; every call to a part's size is an event"""

    def __init__(self):
        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            if n.endswith("external_memory_size"):
                return ("part", place_of(a[0]), r)
            if n.endswith("Iterator::next"):
                return ("next", a, r)
            if n.endswith("strong_count"):
                return ("count", a, r)
            if re.search(r"Iterator::\w+$", n):
                return ("iter", n.split("::")[-1], a, r)
        super().__init__(want, keep=lambda f: True, limit=12)

    def inline(self, b):
        return not b.pretty.endswith("external_memory_size")

    def call(self, e, st, ci):
        if re.search(r"mem::size_of(_val)?$", ci.path):
            m = re.search(r"size_of(?:_val)?::<(.*)>$", ci.text)
            return e.finish(st, ci, ("sizeof", m.group(1) if m else "?"))
        return None


def ln(f, me):
    return any(x[0] == "call" and x[1].endswith("::len") and place_of(x[2][0]) == me for x in f[2:])


def summed(ctx, e, st, me):
    """the iterator chain of the path adds up the size of every element of `me`"""
    its = [ev for ev in st.trace if ev[0] == "iter"]
    ok = {ev[1] for ev in its} <= {"sum", "map", "fold"} and all(any(same(place_of(a), me) or flow.mentions(a, lambda t: t == me) for a in ev[2]) for ev in its[:1])
    clo = [t for ev in its for a in ev[2] for t in flow.walk(a) if isinstance(t, tuple) and t and t[0] == "agg" and isinstance(t[1], str) and t[1].startswith("{")] + \
          [t for ev in its for a in ev[2] for t in flow.walk(a) if isinstance(t, tuple) and len(t) == 2 and t[0] == "fn"]
    good = False
    for c in clo:
        if c[0] == "fn":
            good = good or c[1].endswith("external_memory_size")
            continue
        cb = e.closure_body(st, c)
        if cb is None:
            continue
        e3 = ctx.paths(e.p, cb, Sizes())
        good = all(k3 != "return" or (lambda dd: any(s is not None and s[0] == "call" and s[1].endswith("external_memory_size") and place_of(s[2][0])[0] in ("arg", "fld") and c3 == 1 for s, c3 in dd.items()) and len(dd) <= (2 if len(cb.args) > 2 else 1))(lin(r3)) for k3, s3, r3 in e3.exits)
    return ok and good


def builtins(ctx):
    p = ctx.prog("scope")
    seen = {}
    for b in p.bodies.values():
        if not b.name.endswith("::external_memory_size") or "{closure" in b.name or "gc::traceable" not in b.name:
            continue
        b.parse()
        ty = re.sub(r"^&(?:'\w+ )?", "", b.arg_types[b.args[0]])
        head = mir.type_head(ty)
        h = head.split("::")[-1]
        kind = CONT.get(h)
        if kind == "vec" and re.search(r"<(u8|i8|u16|u32|u64)", ty):
            kind = "flat"
        if not ctx.require(kind is not None, "known-container", h, f"no rule for the memory of {ty}", b.pretty):
            continue
        inner = mir.split_top(re.search(r"<(.*)>$", ty).group(1))[0] if "<" in ty else None
        if "alloc" in (inner or ""):
            inner = inner
        seen[h + ":" + kind] = seen.get(h + ":" + kind, 0) + 1
        me = ("arg", b.local_name(b.args[0]))
        R = Sizes()
        e = ctx.paths(p, b, R)
        for k, st, r in e.exits:
            if k != "return" or len(st.trace) > 11 or flow.mentions(r, lambda t: t == ("…",)):
                continue
            d = lin(r)
            w = f"{b.pretty}: {flow.show(r)} under {flow.show_facts(st)}"
            own = [s for s in d if s is not None and s[0] == "call" and re.search(r"::(capacity|len)$", s[1]) and place_of(s[2][0]) == me]
            parts = {s: c for s, c in d.items() if s is not None and s[0] == "call" and s[1].endswith("external_memory_size")}
            sz = [s for s in d if s is not None and s[0] == "sizeof"]
            if kind == "flat":
                ctx.require(len(d) == 1 and own and d[own[0]] == 1 and (own[0][1].endswith("capacity") or h == "Bytes"), "counted", h, f"the memory of {ty} is counted as {show_lin(d)}", w)
            elif kind == "option":
                v = st.facts.get(("disc", me))
                vals = list(parts.items())
                if v == 0:
                    ctx.require(not d, "counted", f"{h}:none", f"an empty option counts {show_lin(d)}", w)
                else:
                    sums = [s for s in d if s is not None and s[0] == "call" and re.search(r"Iterator::sum$", s[1])]
                    if len(d) == 1 and sums and d[sums[0]] == 1 and summed(ctx, e, st, me):
                        continue
                    ctx.require(len(d) == 1 and len(vals) == 1 and vals[0][1] == 1 and place_of(vals[0][0][2][0]) == ("fld", me, "Some.0"), "counted", f"{h}:some", f"an option counts {show_lin(d)}", w)
            elif kind in ("box", "shared"):
                cnt = [ev for ev in st.trace if ev[0] == "count"]
                shared = None
                for ev in cnt:
                    for f, v in st.facts.items():
                        if isinstance(f, tuple) and f[0] == "op" and isinstance(v, bool) and ev[2] in (f[2], f[3]):
                            c = f[3] if f[2] == ev[2] else f[2]
                            op = f[1] if f[2] == ev[2] else {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(f[1], f[1])
                            t = {("Eq", 1): not v, ("Ne", 1): v, ("Gt", 1): v, ("Le", 1): not v, ("Ge", 2): v, ("Lt", 2): not v}.get((op, c[1] if c[0] == "c" else None))
                            shared = t if t is not None else shared
                    if st.facts.get(ev[2]) == 1:
                        shared = False
                    elif isinstance(st.facts.get(ev[2]), tuple) and 1 in st.facts[ev[2]][1]:
                        shared = True
                if kind == "shared":
                    if not ctx.require(shared is not None, "shared-checked", h, f"{ty} is counted without telling whether it is shared", w):
                        continue
                    if shared:
                        ctx.require(not d, "counted", f"{h}:shared", f"shared contents are counted again by every holder: {show_lin(d)}", w)
                        continue
                ctx.require(len(d) == 2 and len(sz) == 1 and d[sz[0]] == 1 and sz[0][1] == inner and len(parts) == 1 and list(parts.values()) == [1] and place_of(list(parts)[0][2][0]) in (me, ("fld", me, "0")), "counted", f"{h}", f"{ty} counts {show_lin(d)}", w)
            elif kind == "vec":
                cap = [s for s in d if s is not None and s[0] == "op" and s[1] == "Mul" and any(x[0] == "call" and x[1].endswith("::capacity") and place_of(x[2][0]) == me for x in s[2:]) and any(x == ("sizeof", inner) for x in s[2:])]
                ctx.require(len(cap) == 1 and d[cap[0]] == 1, "counted", f"{h}:own", f"{ty} counts {show_lin(d)}: its own buffer is not counted once", w)
                rest = {s: c for s, c in d.items() if s not in cap}
                its = [ev for ev in st.trace if ev[0] == "iter"]
                sums = [s for s in rest if s is not None and s[0] == "call" and re.search(r"Iterator::(sum|fold)$", s[1])]
                if sums:
                    ok = len(rest) == 1 and rest[sums[0]] == 1
                    good = summed(ctx, e, st, me)
                    ctx.require(ok and good, "counted", f"{h}:contents", f"{ty} counts its elements as {[flow.show(x) for x in rest]}", w)
                else:
                    nx = [ev for ev in st.trace if ev[0] == "next"]
                    pt = [ev for ev in st.trace if ev[0] == "part"]
                    idx = [ev[1][2][1] for ev in pt if ev[1][0] == "call" and ev[1][1].endswith("Index::index") and place_of(ev[1][2][0]) == me]
                    if pt and not nx and len(idx) == len(pt) or not pt and not nx and any(isinstance(f, tuple) and f[0] == "op" and ("c", 0) in f[2:] for f in st.facts):
                        # counted by position: 0, 1, ... up to the length
                        full = any(isinstance(f, tuple) and f[0] == "op" and ln(f, me) and ((f[1], v) in (("Lt", False), ("Ge", True), ("Eq", True), ("Ne", False)) and f[2] == ("c", len(pt)) or (f[1], v) in (("Gt", False), ("Le", True), ("Eq", True), ("Ne", False)) and f[3] == ("c", len(pt))) for f, v in st.facts.items())
                        ctx.require(idx == [("c", i) for i in range(len(pt))] and full and sum(rest.values()) == len(pt), "counted", f"{h}:contents", f"{ty} counts the elements at {[flow.show(x) for x in idx]}", w)
                        continue
                    c = sum(v for s, v in rest.items() if s is not None and flow.mentions(s, lambda t: isinstance(t, tuple) and len(t) > 1 and t[0] in ("call", "old") and "external_memory_size" in str(t)))
                    ctx.require(len(rest) <= len(pt) and c == len(pt) and (not nx or len(nx) <= len(pt) + 1), "counted", f"{h}:contents", f"{ty} counts {c} sizes for {len(pt)} elements", w)
                    ctx.require(any(ev[0] == "next" for ev in st.trace), "counted", f"{h}:iterates", f"{ty} does not look at its elements", w)
    ctx.floor("built-in implementations analysed", sum(seen.values()), 8)
    # the helper that turns a value into a guard is part of P08's wrapper rule
    tg = p.by_pretty.get("gc::traceable::tracked_guard")
    if tg is not None:
        R = Rec(lambda e, st, k, n, a, r: ("new", a, r) if k == "call" and n.endswith("ExternalMemoryGuard::new") else None)
        R.inline = lambda b: False
        e = ctx.paths(p, tg, R)
        for k, st, r in e.exits:
            if k == "return":
                ok = len(st.trace) == 1 and st.trace[0][1][0][0] == "call" and st.trace[0][1][0][1].endswith("external_memory_size") and place_of(st.trace[0][1][0][2][0]) == ("arg", tg.local_name(tg.args[0])) and r == st.trace[0][2]
                ctx.require(ok, "guard-size", "tracked_guard", f"tracked_guard reports {[flow.show(x) for ev in st.trace for x in ev[1]]}", tg.pretty)
