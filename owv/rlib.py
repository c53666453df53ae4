"""Helpers shared by the Rust rules."""
import re
from . import flow, mir

ATOM = re.compile(r"std::sync::atomic::Atomic\w*::(\w+)$")
MUTATORS = {"store", "swap", "fetch_add", "fetch_sub", "fetch_max", "fetch_min", "fetch_or", "fetch_and", "fetch_xor", "fetch_nand",
            "fetch_update", "try_update", "update", "compare_exchange", "compare_exchange_weak", "compare_and_swap", "get_mut"}
OPT, RES = flow.OPT, flow.RES


def atomic(name):
    m = ATOM.match(name) if isinstance(name, str) else None
    return m.group(1) if m else None


def place_of(v):
    """the lvalue a reference argument denotes"""
    return v[1] if v[0] in ("ptr", "guard") else v


def lin(t):
    """linear normal form {symbol: coefficient}; constants under None"""
    t = place_of(t) if t[0] in ("ptr",) else t
    if t[0] == "c" and isinstance(t[1], (int, float)):
        return {None: int(t[1])} if t[1] else {}
    if t == ("default",):
        return {}
    if t[0] == "op" and t[1] in ("Add", "Sub"):
        return ladd(lin(t[2]), lin(t[3]), 1 if t[1] == "Add" else -1)
    if t[0] == "un" and t[1] == "Neg":
        return ladd({}, lin(t[2]), -1)
    if t[0] == "op" and t[1] == "Mul":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "c" and isinstance(a[1], int):
                return {k: v * a[1] for k, v in lin(b).items()}
    if t[0] == "call":
        m = re.search(r"(?:core|std)::num::.*?(?:wrapping|saturating|unchecked)_(add|sub)(?:_signed|_unsigned)?$", t[1])
        if m and len(t[2]) == 2:
            return ladd(lin(t[2][0]), lin(t[2][1]), 1 if m.group(1) == "add" else -1)
        m = re.search(r"(?:core|std)::num::.*?(?:wrapping|saturating)_neg$", t[1])
        if m:
            return ladd({}, lin(t[2][0]), -1)
    if t[0] == "fld" and t[2] in ("Some.0",) and t[1][0] == "call":
        m = re.search(r"(?:core|std)::num::.*?checked_(add|sub)(?:_signed|_unsigned)?$", t[1][1])
        if m:
            return ladd(lin(t[1][2][0]), lin(t[1][2][1]), 1 if m.group(1) == "add" else -1)
    if t[0] == "old" and False:
        pass
    return {t: 1}


def ladd(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        r[s] = r.get(s, 0) + k * c
        if r[s] == 0:
            del r[s]
    return r


def show_lin(d):
    return " ".join(f"{'+' if c > 0 else '-'}{'' if abs(c) == 1 and s is not None else abs(c)}{flow.show(s) if s is not None else ''}" for s, c in d.items()) or "0"


class Rec:
    """records the events a predicate wants into the trace; facts matching `keep` survive"""

    def __init__(self, want, keep=None, limit=3, drops=None, inline=None, call=None):
        self.want, self.limit = want, limit
        if keep:
            self.keep_fact = keep
        if drops:
            self.drops = drops
            self.on_drop = self._drop
        if inline:
            self.inline = inline
        if call:
            self.call = call

    def event(self, e, st, kind, name, args, res):
        ev = self.want(e, st, kind, name, args, res)
        if ev is True:
            ev = (kind, name, args, res)
        if ev:
            e.emit(st, ev, self.limit)

    def _drop(self, e, st, ty, val, path):
        ev = self.drops(e, st, ty, val, path)
        if ev is True:
            ev = ("drop", ty, val)
        if ev:
            e.emit(st, ev, self.limit)


def predicate(e, st, clo):
    """what a small pure closure computes from its parameters: (terms of its parameters, [(result, facts)]), or None"""
    fb = e.closure_body(st, clo) if clo[0] == "agg" else None
    if fb is None:
        return None
    fb.parse()
    e2 = flow.Engine(e.p, None, max_states=400)
    try:
        e2.run(fb, args={fb.args[0]: clo}, heap={k: v for k, v in st.heap.items()})
    except flow.Budget:
        return None
    ex = [(e2.strip(s, r), s) for k, s, r in e2.exits if k == "return"]
    return ([("arg", fb.local_name(a)) for a in fb.args[1:]], ex) if ex else None


def key_test(e, st, clo):
    """a closure on map keys: ("eq"|"ne", key) if it compares its first parameter with a key, ("const", bool) if constant"""
    p = predicate(e, st, clo)
    if p is None or len(p[1]) != 1:
        return None
    r = p[1][0][0]
    neg = False
    while r[0] == "un" and r[1] == "Not":
        r, neg = r[2], not neg
    if r[0] == "c" and isinstance(r[1], bool):
        return ("const", r[1] != neg)
    if r[0] == "op" and r[1] in ("Eq", "Ne"):
        a, b = (place_of(x) for x in r[2:4])
        p0 = lambda t: any(x == p[0][0] for x in flow.walk(t)) and not any(x[0] == "call" for x in flow.walk(t) if isinstance(x, tuple) and x and isinstance(x[0], str))
        k = b if p0(a) and not p0(b) else a if p0(b) and not p0(a) else None
        if k is not None:
            return ("eq" if (r[1] == "Eq") != neg else "ne", k)
    return None


def find_aggs(prog, ctor, bodies=None):
    """(body, dict field->operand text value, line) for every construction of an ADT, constants and promoteds included"""
    rx = re.compile(ctor)
    pre = re.compile(ctor.replace("$", ""))
    out = []
    allb = list(prog.bodies.values())
    for d in prog.promoted.values():
        allb += list(d.values())
    for b in allb:
        if bodies and not bodies(b):
            continue
        if not pre.search(b.text):
            continue
        b.parse()
        for k in b.blocks:
            stmts, _ = b.block(k)
            for s in stmts:
                if s[0] == "assign" and s[2][0] == "agg" and rx.search(s[2][1]):
                    out.append((b, k, s))
    return out


def fn_operand(b, op):
    """function item behind an operand, through reifying casts within the body"""
    if op[0] == "const":
        return mir.strip_generics(op[1])
    base = op[1][0]
    for k in b.blocks:
        for s in b.block(k)[0]:
            if s[0] == "assign" and s[1] == (base, []):
                rv = s[2]
                if rv[0] == "cast" and rv[1][0] == "const":
                    return mir.strip_generics(rv[1][1])
                if rv[0] == "use" or rv[0] == "cast":
                    return fn_operand(b, rv[1])
    return None


def callers(prog, path_rx):
    """bodies that contain a call whose path matches"""
    rx = re.compile(path_rx)
    try:
        pre = re.compile(path_rx.split("::")[-1].replace("$", ""))
    except re.error:
        pre = re.compile("")
    out = []
    for b in prog.bodies.values():
        if not pre.search(b.text):
            continue
        b.parse()
        for k in b.blocks:
            t = b.block(k)[1]
            if t[0] == "call" and rx.search(mir.strip_generics(t[2])):
                out.append((b, k, t))
    return out


def where(b, line=None):
    b = b if not hasattr(b, "frames") else b.frames[0].body
    return f"{b.pretty}" + (f" ({line[0]}:{line[1]})" if line else "")


def typed_fields(prog, ty, pred):
    d = prog.adt(ty)
    if not d:
        return []
    return [f[0] for f in d["variants"][0][1] if pred(f[1].replace(" ", ""))]


def sub_paths(e, st, clo, args):
    """[(facts, value)] of a pure closure applied to args in the given state"""
    b = e.closure_body(st, e.strip_keep(st, clo))
    if b is None:
        return None
    e2 = flow.Engine(e.p, None, max_states=2000)
    b.parse()
    s = st.fork()
    s.frames = [flow.Frame(b, 0, 90, None, None)]
    for a, v in zip(b.args, [clo] + args):
        s.env[(90, a)] = v
    s.trace = ()
    e2.work([s])
    return [(x.facts, r) for k, x, r in e2.exits if k == "return"]


def arc_identity(e, st, ci):
    """every Arc::new / Rc::new is a distinct object (the engine otherwise looks through smart pointers)"""
    if ci.path in ("std::sync::Arc::new", "std::rc::Rc::new"):
        site = st.site()
        return e.finish(st, ci, ("call", "new", (e.strip(st, ci.vals[0]),), site))
    return None


def zero(st, t):
    """is integer term t known to be zero on this path: True / False / None"""
    v = st.facts.get(t)
    if isinstance(v, int):
        return v == 0
    if isinstance(v, tuple) and v[0] == "!" and 0 in v[1]:
        return False
    for f, b in st.facts.items():
        if isinstance(f, tuple) and f[0] == "op" and isinstance(b, bool) and f[2] == t and f[3] == ("c", 0):
            r = {"Eq": b, "Ne": not b, "Gt": not b if True else None}.get(f[1])
            if f[1] in ("Eq", "Ne", "Gt"):
                return r
            if f[1] == "Le":
                return b
        if isinstance(f, tuple) and f[0] == "op" and isinstance(b, bool) and f[2] == t and f[3] == ("c", 1) and f[1] in ("Lt", "Ge"):
            return b if f[1] == "Lt" else not b
        if isinstance(f, tuple) and f[0] == "call" and f[2] and f[2][0] == t and f[1].endswith("::is_zero"):
            return bool(b)
    return None


def sub(t, idx, name):
    """field of a struct literal, an updated value, or a nested one"""
    if t is None:
        return None
    while t[0] == "mut":
        t = t[1]
    if t[0] == "upd":
        for k, v in t[2]:
            if k in (str(idx), name):
                return v
        return sub(t[1], idx, name)
    if t[0] == "agg":
        if t[4] and name in t[4]:
            return t[3][t[4].index(name)]
        if not t[4] and idx < len(t[3]):
            return t[3][idx]
        return None
    if t[0] == "call" and t[1].endswith("zeroed"):
        return ("c", 0)
    return ("fld", t, str(idx))


def evaluate(t, env):
    """integer value of an arithmetic term under concrete values of its symbols, None if not evaluable"""
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[1] if isinstance(t[1], (int, float)) else None
    if t[0] == "op":
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {"Add": a + b, "Sub": a - b, "Mul": a * b, "Div": a // b if b else None, "Rem": a % b if b else None, "Shr": int(a) >> int(b) if 0 <= b < 128 else None, "Shl": int(a) << int(b) if 0 <= b < 128 else None,
                    "Lt": a < b, "Gt": a > b, "Le": a <= b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}.get(t[1])
        except TypeError:
            return None
    if t[0] == "un" and t[1].startswith("as u") and t[1][4:].isdigit():
        v = evaluate(t[2], env)
        return None if v is None else int(v) & ((1 << int(t[1][4:])) - 1)
    if t[0] == "call":
        last = t[1].split("::")[-1]
        a = [evaluate(x, env) for x in t[2]]
        if any(x is None for x in a):
            return None
        D = {"from_millis": lambda x: x * 10**6, "from_secs": lambda x: x * 10**9, "from_nanos": lambda x: x, "from_micros": lambda x: x * 1000,
             "as_secs": lambda x: x // 10**9, "subsec_nanos": lambda x: x % 10**9, "subsec_millis": lambda x: x % 10**9 // 10**6, "as_millis": lambda x: x // 10**6, "as_nanos": lambda x: x}
        if "Duration" in t[1] and last in D:
            return D[last](a[0])
        if t[1].endswith("Duration::new") and len(a) == 2:
            return a[0] * 10**9 + a[1]
        if re.search(r"std::ops::(Add::add|Sub::sub|Mul::mul)$", t[1]) and len(a) == 2:
            return {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[last]
        N = {"saturating_mul": lambda x, y: x * y, "wrapping_mul": lambda x, y: x * y, "saturating_add": lambda x, y: x + y, "wrapping_add": lambda x, y: x + y,
             "div_euclid": lambda x, y: x // y, "rem_euclid": lambda x, y: x % y, "min": min, "max": max, "saturating_sub": lambda x, y: max(0, x - y)}
        if last in N and len(a) == 2:
            return N[last](*a)
    return None


def same(a, b):
    """equality of terms; a call result is identified by callee and call site, cut subterms match anything"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return a == b
    if a == ("…",) or b == ("…",):
        return True
    if len(a) == 4 and len(b) == 4 and a[0] == b[0] == "call":
        return a[1] == b[1] and a[3] == b[3]
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def has(t, x):
    """x occurs in t"""
    return flow.mentions(t, lambda y: isinstance(y, tuple) and y and y[0] == x[0] and same(y, x))
