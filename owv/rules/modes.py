"""P28: every way of building a context offers the same APIs under the same restrictions."""
import hashlib
from .. import flow, js, mir
from ..check import check, Missing
from ..rlib import *
from .limits import last
from .scripts import EVENT, Text, texts, strings, merge, whole_script, parse
from .snapshot import call

CONTEXT = re.compile(r"^v8::context::new$")
SET = re.compile(r"^v8::object::set$")
SLOT = re.compile(r"^v8::context::set_slot$")
RUN = re.compile(r"^v8::script::run$")


class Build(Text):
    def __init__(self, p, inl):
        super().__init__(p, lambda *a: False, set())
        self.inl = inl

    def helper(self, b):
        return b.pretty in self.inl or super().helper(b)

    def record(self, e, st, kind, name, args, res):
        if kind != "call":
            return None
        if CONTEXT.search(name):
            return ("context",)
        if RUN.search(name):
            kinds = set()
            for term in strings(args[:1]):
                for x in self.pieces(e, st, e.strip(st, term)):
                    x = merge(x)
                    if all(q[0] == "lit" for q in x):
                        kinds.add(("js", x[0][1]))
                    elif len(x) == 1 and x[0][0] == "other" and whole_script(self.p, x[0][1]):
                        kinds.add(("tenant",))
                    elif x[0][0] == "lit":
                        kinds.add(("spliced", x[0][1]))
            if ("tenant",) in kinds:
                self.tenant(e, st)
            ev = kinds.pop() if len(kinds) == 1 else ("unknown", repr(sorted(kinds))[:200])
            self.ran(st, ev)
            return ev
        if SET.search(name) and len(args) == 4:
            key = [t[2][-1][1] for t in flow.walk(args[2]) if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1] == "v8::string::new" and t[2][-1][0] == "c"]
            if len(key) == 1:
                fn = sorted({t[1] for t in flow.walk(args[3]) if isinstance(t, tuple) and t and (t[0] == "agg" and t[1].startswith("{closure") or t[0] == "fn")})
                return ("native", key[0], tuple(fn[:1]))
            return None
        if SLOT.search(name):
            ty = sorted({t[1] for t in flow.walk(args[-1]) if isinstance(t, tuple) and t and t[0] == "agg" and "::" in str(t[1])})
            return ("state", ty[0] if ty else "?")
        return super().record(e, st, kind, name, args, res)


def reaching(p, start):
    """the functions from which one of the given ones can be called"""
    seen, todo = set(start), list(start)
    while todo:
        n = todo.pop()
        m = n
        while m.rsplit("::", 1)[-1].startswith("{closure"):
            m = m.rsplit("::", 1)[0]
        if m != n and m in p.by_pretty and m not in seen:
            seen.add(m)
            todo.append(m)
        for b, _, _ in callers(p, re.escape(n) + "$"):
            if "::tests::" not in b.pretty and b.pretty not in seen:
                seen.add(b.pretty)
                todo.append(b.pretty)
    return seen


def direct(p, rx):
    return {b.pretty for b, _, t in callers(p, rx.pattern.lstrip("^")) if rx.search(mir.strip_generics(t[2])) and "::tests::" not in b.pretty}


def modes(ctx, p):
    """{name: [(facts, events before the worker's code, events after it, state)]} for every function that creates a context and runs the worker's code in it"""
    tenant = {b.pretty for b, x in texts(ctx, p) if len(x) == 1 and x[0][0] == "other"}
    run = reaching(p, direct(p, RUN))
    effect = reaching(p, direct(p, EVENT) | direct(p, SLOT) | {n for n in direct(p, SET) if "setup" in n})
    make, ten = reaching(p, direct(p, CONTEXT)), reaching(p, tenant)
    both = make & ten & run
    roots = {n for n in both if not any(m.startswith(n + "::{closure") for m in both) and not any(b.pretty == n for m in both - {n} for b, _, _ in callers(p, re.escape(m) + "$"))}
    out = {}
    for n in sorted(roots):
        b = p.by_pretty[n]
        b.parse()
        R = Build(p, effect - roots)
        R.useful = b.leads_to({k for k in b.blocks for t in [b.block(k)[1]] if t[0] == "call" and (mir.strip_generics(t[2]) in effect or any(rx.search(mir.strip_generics(t[2])) for rx in (EVENT, SET, SLOT, RUN)))})
        ends, after = {}, set()
        R.tenant = lambda e, st: ends.setdefault((st.trace, tuple(sorted(map(repr, st.facts.items())))), (st.trace, st.fork(), e))
        R.ran = lambda st, ev: after.add(ev) if ("tenant",) in st.trace else None
        ctx.paths(p, b, R, max_states=120000)
        out[n] = (list(ends.values()), after - {("tenant",)})
    return out, effect


def name(ev):
    if ev[0] == "spliced":
        return "the script " + ev[1][:40]
    if ev[0] != "js":
        return " ".join(str(x) for x in ev[:2])
    m = re.search(r"globalThis\.(\w+)\s*=|crypto\.subtle\.(\w+)\s*=|delete globalThis\.(\w+)|/\* \S*?(\w+) \*/", ev[1])
    return "the script for " + (next(x for x in m.groups() if x) if m else ev[1][:60])


DANGEROUS = ("SharedArrayBuffer", "Atomics")


def restricts(ctx, text):
    """{name: removed} for the dangerous globals that a script touches"""
    if not any(x in text for x in DANGEROUS):
        return {}
    if text in _restricts:
        return _restricts[text]
    eng = js.world(ctx).engine_for(None)
    a = parse([text])[0]
    if "ast" not in a:
        raise Missing("restrictions", a.get("error"))
    s = js.Script("restrictions", 1, "", text, False)
    s.ast = a["ast"]
    eng.p.number(s.ast, s)
    eng.parent[js.TOP] = None
    ends = [c[2] for c in eng.block_body(s.ast["body"], js.world(ctx).base.fork(), js.TOP, hoist_global=True)]
    touched = [d for d in DANGEROUS if any((js.G, d) in st.heap for st in ends)]
    _restricts[text] = {d: all(st.heap.get((js.G, d)) == js.UNDEF for st in ends) for d in touched}
    return _restricts[text]


_restricts = {}


def is_snap(t):
    return any(isinstance(x, tuple) and x and x[0] == "call" and last(x[1]) == "get_snapshot" for x in flow.walk(t))


def says_snapshot(st, t):
    """the truth value t is true only if a snapshot is loaded"""
    if t == ("c", False):
        return True
    if t == ("c", True):
        return any(is_snap(k) and (v is True or v == 1) for k, v in st.facts.items())
    return is_snap(t) and t[0] in ("call", "op", "fld") and not any(isinstance(x, tuple) and x and (x[0] == "op" and x[1] in ("Not", "!") or x[0] == "call" and last(x[1]) == "is_none") for x in flow.walk(t))


def origins(p, b, place, seen=frozenset()):
    """where the value of a place comes from: (type of a local that is not assigned or of a pointer, projections); calls are followed"""
    b.parse()
    l, proj = place
    if (l, repr(proj)) in seen:
        return []
    seen = seen | {(l, repr(proj))}
    if proj and proj[0] == "*" or proj and proj[0] == ("*",):
        return [(b.locals.get(l), proj)]
    defs = [s[2] for k in b.blocks for s in b.block(k)[0] if s[0] == "assign" and s[1][0] == l and not s[1][1]]
    calls = [t for k in b.blocks for t in [b.block(k)[1]] if t[0] == "call" and t[1] and t[1][0] == l and not t[1][1]]
    if not defs and not calls:
        return [(b.locals.get(l), proj)]
    out = []
    for t in calls:
        c = p.by_pretty.get(mir.strip_generics(t[2]))
        out += origins(p, c, (0, list(proj)), seen) if c is not None and len(seen) < 12 else [(None, t[2])]
    for rv in defs:
        if rv[0] == "use" and rv[1][0] in ("copy", "move"):
            q = rv[1][1]
            out += origins(p, b, (q[0], list(q[1]) + list(proj)), seen)
        elif rv[0] == "agg" and rv[1] == "()" and proj and proj[0][0] == "f" and rv[3][proj[0][1]][0] in ("copy", "move"):
            q = rv[3][proj[0][1]][1]
            out += origins(p, b, (q[0], list(q[1]) + list(proj[1:])), seen)
        else:
            out.append((None, rv))
    return out


def from_snapshot(ctx, p, b, st):
    """the classes that a snapshot contains are left out on this path only because a snapshot is loaded"""
    if any(is_snap(t) and (v is True or v == 1) for t, v in st.facts.items()):
        return True
    flags = [i for i, n in enumerate(b.args) if st.facts.get(("arg", b.local_name(n))) is True]
    return any(flag(ctx, p, b, i) for i in flags)


def flag(ctx, p, b, i):
    """every caller passes for parameter i a value that is true only if a snapshot is loaded"""
    some = False
    for c, k, t in callers(p, re.escape(b.pretty) + "$"):
        if "::tests::" in c.pretty:
            continue
        some = True
        op = t[3][i]
        for ty, proj in origins(p, c, op[1]) if op[0] in ("copy", "move") else [(None, op)]:
            d = p.adt(re.sub(r"^(&|\*(const|mut) |mut |'\w+ )+", "", ty)) if ty else None
            f = next((x[1] for x in reversed(proj) if isinstance(x, tuple) and x[0] == "f"), None) if d else None
            if f is None or not field(ctx, p, ty, f):
                return False
    return some


def field(ctx, p, ty, f):
    """the field is only ever given a value that is true only if a snapshot is loaded"""
    ty = mir.type_head(re.sub(r"^(&|\*(const|mut) |mut |'\w+ )+", "", ty))
    some = False
    for b in {b.pretty: b for b, _, _ in find_aggs(p, re.escape(ty) + "$")}.values():
        if "::tests::" in b.pretty:
            continue
        e = ctx.paths(p, b, Rec(lambda *a: None, inline=lambda x: False), max_states=40000)
        for k, st, r in e.exits:
            if k == "return":
                for x in flow.walk(r):
                    if isinstance(x, tuple) and x and x[0] == "agg" and x[1] == ty:
                        some = True
                        if not says_snapshot(st, e.strip(st, x[3][f])):
                            return False
    return some


@check("P28", "path-sensitive abstract interpretation of the context construction functions (installed natives, state slots and scripts on every path until the worker's code runs), compared between all modes",
       "the snapshot blob is assumed to contain what the current source's snapshot builder installs")
def p28(ctx):
    """Every function that creates a context and runs the worker's code in it is found through the call graph and explored up to
    the worker's code. On each path the natives, state slots and scripts that have been installed are recorded. They must be the
    same in every mode; only where a snapshot is loaded may a path leave out scripts, and only those that the snapshot builder
    runs. The scripts that remove SharedArrayBuffer and Atomics are interpreted: both globals must be gone before the worker's
    code runs, in every mode, and no later script brings them back."""
    p = ctx.prog("full")
    out, effect = modes(ctx, p)
    if not p.unanalysed:
        ctx.floor("context construction modes", len(out), 3)
    per = {}
    for n, (ends, after) in out.items():
        ctx.counts[f"paths to the worker's code in {n}"] = len(ends)
        for tr, st, e in ends:
            for ev in tr:
                if ev[0] in ("unknown",):
                    raise Missing("script", f"{n} runs a script whose text is not known: {ev[1]}")
    prefixes = [ev[1] for ends, after in out.values() for ev in set(after) | {ev for tr, _, _ in ends for ev in tr} if ev[0] == "spliced"]

    def same(ev):
        """the variants of a script with spliced values are one script"""
        if ev[0] in ("js", "spliced"):
            x = min((q for q in prefixes if ev[1].startswith(q)), key=len, default=None)
            if x:
                return ("spliced", x)
        return ev
    out = {n: ([(tuple(same(ev) for ev in tr), st, e) for tr, st, e in ends], {same(ev) for ev in after}) for n, (ends, after) in out.items()}
    everything = {ev for ends, _ in out.values() for tr, _, _ in ends for ev in tr if ev[0] != "tenant"}
    ctx.floor("natives, state slots and scripts", len(everything), 40)
    snap = snapshot_scripts(ctx, p)
    for n, (ends, after) in out.items():
        for tr, st, e in ends:
            have = set(tr)
            lack = everything - have
            excused = {x for x in lack if x in snap}
            for x in sorted(lack - excused, key=repr):
                ctx.require(False, "missing", f"{n}:{name(x)}", f"{name(x)} is not installed before the worker's code runs", n)
            if excused:
                ctx.require(from_snapshot(ctx, p, p.by_pretty[n], st), "skipped", n, f"{len(excused)} scripts (such as {name(sorted(excused)[0])}) are left out on a path where no snapshot is known to be loaded", n)
            state = {}
            for ev in tr:
                if ev[0] == "js":
                    state.update(restricts(ctx, ev[1]))
            for d in DANGEROUS:
                ctx.require(state.get(d) is True, "restricted", f"{n}:{d}", f"{d} is available to the worker's code", n)
        afters = {n2: a for n2, (_, a) in out.items()}
        for n2, a in afters.items():
            for x in sorted(a - after, key=repr):
                ctx.require(False, "after", f"{n}:{name(x)}", f"{name(x)}, which {n2} runs after the worker's code, is not run here", n)


def snapshot_scripts(ctx, p):
    """the scripts that are run in every context a snapshot is made of"""
    out = None
    for c, bb, t in callers(p, "set_default_context$"):
        if "::tests::" in c.pretty:
            continue
        R = Build(p, reaching(p, direct(p, RUN)))
        R.tenant = R.ran = lambda *a: None
        e = ctx.paths(p, c, R, max_states=60000)
        for k, st, r in e.exits:
            if k == "return":
                s = {ev for ev in st.trace if ev[0] == "js"}
                if s:
                    out = s if out is None else out & s
    return out or set()
