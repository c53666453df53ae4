"""P29: script-controlled arguments cannot crash the host."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .crypto import is_native, GET, BYTELEN

UNWRAP = re.compile(r"(std::option::Option|std::result::Result)::(unwrap|expect|unwrap_err|expect_err)$")
ALLOC = {"std::vec::from_elem": 1, "std::vec::Vec::with_capacity": 0, "std::string::String::with_capacity": 0, "std::vec::Vec::reserve": 1,
         "std::vec::Vec::reserve_exact": 1, "std::vec::Vec::resize": 1, "std::str::repeat": 1, "bytes::BytesMut::with_capacity": 0,
         "tokio::sync::mpsc::channel": 0, "v8::array_buffer::new": 1, "std::collections::HashMap::with_capacity": 0}
PANICKY = re.compile(r"(Duration::(from_secs_f(32|64)|mul_f(32|64)|div_f(32|64)|mul|div|add)|std::vec::Vec::(remove|swap_remove|insert|split_off|drain)|core::slice::.*(copy_from_slice|clone_from_slice|split_at(_mut)?|chunks(_exact)?|windows|swap|rotate_left|rotate_right)|core::str::.*split_at|std::slice::(copy_from_slice|clone_from_slice|split_at(_mut)?|chunks(_exact)?|windows)|std::iter::Iterator::step_by|std::time::Instant::(add|sub)|std::ops::(Add|Sub|Mul|AddAssign)::\w+|std::string::String::(remove|insert|split_off|truncate|drain)|std::alloc::Layout::from_size_align_unchecked)$")
NUMBER = re.compile(r"^v8::.*::(number_value|integer_value|uint32_value|int32_value|value|number|to_number|to_integer|to_uint32)$")


def script(t):
    """t is computed from the script's arguments"""
    return flow.mentions(t, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x[1] == GET)


def sized_by_number(t):
    """symbols of a size that are plain script numbers (not the length of something that exists)"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "call":
            if BYTELEN.search(x[1]) or x[1].endswith("::len") or x[1].endswith("::utf8_length"):
                return
            if NUMBER.search(x[1]) and script(x):
                out.append(x)
                return
            if re.search(r"::(min|clamp)$", x[1]) and any(bounded_term(a) for a in x[2][1:]):
                return
            for a in x[2]:
                go(a)
            return
        if x[0] == "op" and x[1] in ("Rem", "BitAnd") and bounded_term(x[3]):
            return
        for a in x[1:]:
            go(a)
    go(t)
    return out


def bounded_term(t):
    if isinstance(t, tuple) and t[0] == "op":
        return all(bounded_term(x) for x in t[2:])
    return isinstance(t, tuple) and (t[0] in ("c", "static", "const", "fn") or t[0] == "call" and (BYTELEN.search(t[1]) or t[1].endswith("::len")))


def bounded_fact(st, sym):
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f[0] == "op" and isinstance(v, bool):
            l, r = f[2], f[3]
            if has(l, sym) and bounded_term(r) and (f[1] in ("Gt", "Ge") and v is False or f[1] in ("Lt", "Le") and v is True or f[1] == "Eq" and v):
                return True
            if has(r, sym) and bounded_term(l) and (f[1] in ("Lt", "Le") and v is False or f[1] in ("Gt", "Ge") and v is True):
                return True
        if isinstance(f, tuple) and f[0] == "call" and v is True and re.search(r"::contains$", f[1]) and has(f, sym):
            return True
    return False


def constant_text(t):
    return t[0] == "c"


class Crash:
    def __init__(self, found):
        self.found = found
        self.sites = set()
        self.keep_fact = lambda f: True

    def note(self, st, kind, what, ok):
        f = st.top.body
        key = (f.pretty, kind, what)
        self.sites.add((f.pretty, st.top.bb, kind))
        if not ok:
            self.found.setdefault(key, (f.pretty, st.line))

    def call(self, e, st, ci):
        p = ci.path
        if UNWRAP.match(p):
            x = e.strip(st, e.strip_keep(st, ci.vals[0]))
            bad = 0 if p.startswith(OPT) else 1
            if p.endswith("_err"):
                bad = 1 - bad
            s = e.assume_disc(st.fork(), e.strip_keep(st, ci.vals[0]), bad)
            if s is not None and script(x):
                self.note(st, "unwrap", origin(x), benign(st, x))
            return None
        if p in ALLOC and len(ci.vals) > ALLOC[p]:
            n = e.strip(st, ci.vals[ALLOC[p]])
            syms = sized_by_number(n)
            if syms:
                self.note(st, "allocation", p.split("::", 1)[1], all(bounded_fact(st, s) for s in syms))
            return None
        if p in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
            a = [e.strip(st, v) for v in ci.vals]
            if script(a[1]) or script(a[0]):
                self.note(st, "index", flow.show(a[1])[:60], within(st, a[0], a[1], bool(ci.sty and re.search(r"(^|[^\w])(str|String)$", ci.sty))))
            return None
        if PANICKY.search(p):
            a = [e.strip(st, v) for v in ci.vals]
            if any(script(x) for x in a) and not (p.startswith("std::ops::") and not (ci.sty and re.search(r"Duration|Instant", ci.sty))):
                self.note(st, "panics", p, False)
        return None

    def on_diverge(self, e, st, ci):
        if any(isinstance(f, tuple) and script(f) for f in st.facts):
            self.note(st, "panics", ci.path, False)

    def on_assert(self, e, st, t):
        msg = t[5]
        if "overflow" in msg and "divide" not in msg:
            return      # wraps in release builds
        c = e.strip(st, e.operand(st, t[2]))
        tv = e.truth(st, c)
        want = not t[1]
        if tv is want:
            return
        if script(c):
            self.note(st, "assert", msg[:50], False)


def origin(x):
    while x[0] in ("fld", "ptr", "mut"):
        x = x[1]
    return x[1] if x[0] == "call" else flow.show(x)[:60]


def benign(st, x):
    """the failure is excluded by a test on the path, or by V8 for anything a script can hold"""
    while x[0] in ("ptr", "mut"):
        x = x[1]
    if x[0] != "call":
        return False
    if x[1] == "v8::string::new":
        return True             # fails only above V8's maximum string length
    if x[1].startswith("v8::typed_array::") and x[1].endswith("::new") or x[1].endswith("Array::new"):
        return True             # over a buffer of that length
    if re.search(r"::(try_from|try_into|try_cast)$", x[1]):
        src = x[2][0]
        for f, v in st.facts.items():
            if isinstance(f, tuple) and f[0] == "call" and v is True and re.search(r"::is_(\w+)$", f[1]) and same(place_of(f[2][0]), place_of(src)) and not re.search(r"is_(null|undefined|null_or_undefined|true|false|object|name)$", f[1]):
                return True
    return False


def within(st, cont, idx, text):
    if "RangeFull" in str(idx):
        return True
    if text and not (idx[0] == "agg" and all(x[0] == "call" and x[1].endswith("::len") and has(x, place_of(cont)) for x in idx[3])):
        return False            # may cut a character in two
    if idx[0] == "agg" and idx[1].endswith(("RangeTo", "Range", "RangeFrom")) or idx[0] != "agg":
        last = idx if idx[0] != "agg" else idx[3][-1]
        if last[0] == "c":
            need = last[1] + (idx[0] != "agg")
            for f, v in st.facts.items():
                if isinstance(f, tuple) and f[0] == "op" and isinstance(v, bool) and f[2][0] == "call" and f[2][1].endswith("::len") and f[3][0] == "c" \
                        and same(place_of(f[2][2][0]), place_of(cont)):
                    low = {("Ge", True): f[3][1], ("Gt", True): f[3][1] + 1, ("Eq", True): f[3][1], ("Lt", False): f[3][1], ("Le", False): f[3][1] + 1,
                           ("Ne", False): f[3][1]}.get((f[1], v))
                    if low is not None and low >= need:
                        return True
                if isinstance(f, tuple) and f[0] == "call" and f[1].endswith("::is_empty") and v is False and need == 1 and same(place_of(f[2][0]), place_of(cont)):
                    return True
    if idx[0] == "agg" and idx[1].endswith(("RangeTo", "Range")):
        end = idx[3][-1]
        start = idx[3][0] if idx[1].endswith("Range") else ("c", 0)
        if start == ("c", 0) and end[0] == "call" and (BYTELEN.search(end[1]) or end[1].endswith("::len")):
            o = place_of(end[2][0])
            c = cont
            while c[0] in ("ptr", "mut"):
                if c[0] == "mut" and re.search(r"::(resize|resize_with|truncate|clear|pop|remove|swap_remove|drain|split_off|retain|set_len|dedup)$", str(c[-1])):
                    return False
                c = c[1]
            if c[0] == "call" and c[1].startswith(("std::vec::", "std::string::")):
                return c[1] == "std::vec::from_elem" and same(c[2][1], end) or same(place_of(cont), o)
            return has(cont, o) or same(place_of(cont), o)
        if start == ("c", 0) and end[0] == "call" and re.search(r"::min$", end[1]):
            return any(a[0] == "call" and a[1].endswith("::len") and same(place_of(a[2][0]), place_of(cont)) for a in end[2])
    return False


@check("P29", "taint analysis from script arguments to panic and allocation sites over all paths of every native (MIR)",
       "strings and buffers a script can build stay below V8's own maximum lengths (the configured memory limit is smaller); arithmetic overflow wraps in release builds; "
       "modules outside the sandbox's build are analysed against stand-in types for openworkers_core")
def p29(ctx):
    """Every function that V8 can call with script arguments is explored path by path.  At every unwrap/expect, slice or range index, division, explicit panic,
    panicking library call and allocation whose operand is computed from the arguments, the failing case must be excluded by the tests made earlier on that
    path (a panic in a V8 callback aborts the process; an allocation sized by a plain script number must be bounded first)."""
    kinds = [("scope", ())]
    try:
        ctx.prog("full")
        kinds = [("full", ())]
    except Exception as x:
        ctx.note(f"natives outside the sandbox's build were not analysed: {str(x)[:200]}")
    n = sites = 0
    for kind, feats in kinds:
        p = ctx.prog(kind, feats)
        for b in p.bodies.values():
            b.parse()
            if not is_native(b):
                continue
            n += 1
            found = {}
            R = Crash(found)
            ctx.paths(p, b, R)
            sites += len(R.sites)
            for (fn, k, what), (w, line) in found.items():
                msg = {"unwrap": f"the result of {what} is unwrapped although the script's arguments can make it fail",
                       "allocation": f"{what} is sized by a script number that nothing bounds", "index": f"range or index {what} can lie outside what it indexes",
                       "panics": f"{what} panics for some arguments", "assert": f"the check '{what}' can fail for some arguments"}[k]
                ctx.require(False, "crash", f"{fn}:{k}:{what}", msg, w + (f" (line {line[1]})" if isinstance(line, tuple) else ""))
            ctx.require(True, "explored", b.pretty, "")
    ctx.floor("natives", n, 12)
    ctx.floor("argument-dependent sites", sites, 10)
