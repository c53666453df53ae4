"""Path-sensitive forward dataflow over MIR.

A state is (call stack of program points, abstract values of locals, stores to heap paths,
branch facts, rule data, bounded event trace).  States are propagated along every CFG edge to a
fixpoint: two arrivals at a point with equal abstract state are merged, values are finite-depth
access paths / call results, and events saturate, so loops terminate without unrolling bounds.
Callees of the crate, closures and awaited async bodies are analysed in context.  Correlated
branches are followed by constant propagation of facts only; no solver is used.
"""
import re, sys
from . import mir

sys.setrecursionlimit(20000)

UNIT = ("c", "()")
TRUE, FALSE = ("c", True), ("c", False)
MAXDEPTH = 16


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("body", "bb", "fid", "dest", "ret_bb", "post", "drop_only")

    def __init__(self, body, bb, fid, dest, ret_bb, post=None):
        self.body, self.bb, self.fid, self.dest, self.ret_bb, self.post = body, bb, fid, dest, ret_bb, post
        self.drop_only = False

    def key(self):
        return (self.body.name, self.bb, self.dest, self.ret_bb, self.post, self.drop_only)

    def copy(self):
        f = Frame(self.body, self.bb, self.fid, self.dest, self.ret_bb, self.post)
        f.drop_only = self.drop_only
        return f


class State:
    __slots__ = ("frames", "env", "heap", "facts", "data", "trace", "line")

    def __init__(self):
        self.frames, self.env, self.heap, self.facts, self.data, self.trace = [], {}, {}, {}, {}, ()
        self.line = None

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.env, s.heap, s.facts, s.data, s.trace = dict(self.env), dict(self.heap), dict(self.facts), dict(self.data), self.trace
        s.line = self.line
        return s

    @property
    def top(self):
        return self.frames[-1]

    def site(self):
        """the call site being executed, told apart by the calls that led to it"""
        f = self.top
        ctx = tuple(x.bb for x in self.frames[:-1])
        return (f.body.pretty, f.bb) + ((ctx,) if ctx else ())

    def key(self):
        return (tuple(f.key() for f in self.frames), frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.facts.items()), frozenset(self.data.items()), self.trace)


class Event:
    """kind, name, args, result, site(line) -- tuples inside the trace"""


CAS = re.compile(r"Atomic\w*::compare_exchange(_weak)?$")
INTBITS = {f"{k}{n}": n for k in "iu" for n in (8, 16, 32, 64, 128)} | {"usize": 64, "isize": 64}
ORDERING = {"Less": 255, "Equal": 0, "Greater": 1}


def ordering(name):
    return ("agg", "std::cmp::Ordering::" + name, ORDERING[name], (), None)


_depth = {}


def depth(t):
    if not isinstance(t, tuple):
        return 0
    d = _depth.get(t)
    if d is None:
        d = 1 + max([depth(x) for x in t], default=0)
        _depth[t] = d
    return d


def cut(t, n=MAXDEPTH, wrap=MAXDEPTH):
    """bounds the depth of a term; a wrapper (aggregate or operator) around a term that fits does not cut it, so that
    a call result keeps its identity when it is stored in a structure"""
    if not isinstance(t, tuple) or depth(t) <= n:
        return t
    if n <= 1:
        return ("…",)
    if wrap and t[0] != "call" and depth(t) <= n + wrap:
        return tuple(cut(x, n, wrap - 1) for x in t)
    return tuple(cut(x, n - 1) for x in t)


_sites = {}


def call_sites(t):
    if not isinstance(t, tuple):
        return frozenset()
    r = _sites.get(t)
    if r is None:
        r = frozenset()
        if t and t[0] == "call":
            r = frozenset([t])
        for x in t:
            if isinstance(x, tuple):
                r = r | call_sites(x)
        _sites[t] = r
    return r


def subst_old(t, term, tag=()):
    if t == term:
        return ("old", term[1] if term[0] == "call" else term) + tag
    if not isinstance(t, tuple):
        return t
    if term not in call_sites(t):
        return t
    return tuple(subst_old(x, term, tag) if isinstance(x, tuple) else x for x in t)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


TRANSPARENT = re.compile(r"""^(
  std::ops::Deref::deref|std::ops::DerefMut::deref_mut|std::convert::AsRef::as_ref|std::convert::AsMut::as_mut|
  std::borrow::Borrow::borrow|std::borrow::BorrowMut::borrow_mut|std::borrow::ToOwned::to_owned|
  std::convert::Into::into|std::convert::From::from|std::future::IntoFuture::into_future|
  std::iter::IntoIterator::into_iter|std::string::ToString::to_string|
  std::pin::Pin::(new_unchecked|new|as_mut|get_mut|get_unchecked_mut|as_ref|into_inner)|
  (std::boxed::Box|std::sync::Arc|std::rc::Rc|std::cell::RefCell|std::cell::Cell|std::sync::Mutex|std::cell::UnsafeCell|std::sync::OnceLock|tokio::sync::Mutex|std::sync::atomic::Atomic\w*|std::mem::ManuallyDrop|std::boxed::Box::pin)::(new|from|pin|into_inner)|
  std::boxed::Box::(pin|leak|into_raw|from_raw|as_ptr|into_pin)|std::sync::Arc::(into_raw|from_raw|as_ptr|get_mut)|std::rc::Rc::as_ptr|
  std::option::Option::(as_ref|as_mut|as_deref|as_deref_mut|cloned|copied|as_pin_mut)|std::result::Result::(as_ref|as_mut|as_deref)|
  std::clone::Clone::clone|std::cell::UnsafeCell::get|std::hint::must_use|std::hint::black_box|
  std::cell::RefCell::(borrow|borrow_mut|as_ptr)|std::cell::(Ref|RefMut)::map|
  std::cell::Cell::(as_ptr)|core::str::(.*::)?(as_bytes|as_str)|std::string::String::(as_str|as_bytes|into_bytes|as_mut_str|into_boxed_str)|
  std::vec::Vec::(as_slice|as_mut_slice|into_boxed_slice|iter|iter_mut)|(core|std)::slice::(.*::)?(iter|iter_mut|to_vec|as_ref|into_vec)|
  std::num::\w+::get|core::num::(.*::)?(from_ne_bytes)|std::ptr::(mut_ptr|const_ptr)::(.*::)?(as_ref|as_mut|cast|cast_mut|cast_const)|
  std::intrinsics::\w*transmute\w*|std::ptr::NonNull::(as_ptr|as_ref|as_mut|new_unchecked|cast)|
  std::ops::Index::index_transparent_never|std::iter::Iterator::(by_ref|cloned|copied)
)$""", re.X)


class Engine:
    def __init__(self, prog, rule=None, max_states=60000, max_inline=10, unwind=False, cancel=False):
        self.p, self.rule = prog, rule
        self.max_states, self.max_inline, self.unwind, self.cancel = max_states, max_inline, unwind, cancel
        self.exits = []           # (kind, State, retval)
        self.nstates = 0
        self.seen_calls = set()
        self.bodies_seen = set()
        self.impls = {}
        for pretty, b in prog.by_pretty.items():
            m = re.match(r"(.*?)<([^<>]*) as ([^<>]*)>::(\w+)$", pretty)
            if m:
                self.impls[(m.group(2).split("::")[-1], m.group(3).split("::")[-1], m.group(4))] = b

    # ------------------------------------------------------------------ values
    def deref(self, st, v):
        if v[0] == "ptr":
            return self.read_path(st, v[1])
        if v[0] == "guard":
            return self.read_path(st, v[1])
        return st.heap.get(v, v)

    def read_path(self, st, path):
        if path[0] == "loc":
            v = st.env.get((path[1], path[2]), ("undef", path[1], path[2]))
            for k in path[3]:
                v = self.field(st, v, k)
            return v
        return st.heap.get(path, path)

    def field(self, st, v, key):
        k = v[0]
        if k in ("ptr", "guard"):
            p = v[1]
            inner = self.read_path(st, p)
            if p[0] == "loc":
                if inner[0] in ("ptr", "guard", "agg", "upd"):
                    return self.field(st, inner, key)
                t = ("fld", inner, key)
                return st.heap.get(t, t)
            if inner != p and inner[0] in ("agg", "upd", "ptr", "guard"):
                return self.field(st, inner, key)
            t = ("fld", p, key)
            return st.heap.get(t, t)
        if k == "upd":
            for kk, vv in v[2]:
                if kk == key:
                    return vv
            return self.field(st, v[1], key)
        if k == "agg":
            names, items = v[4], v[3]
            kk = key.split(".", 1)[1] if "." in key else key
            if names and kk in names:
                return items[names.index(kk)]
            if kk.isdigit() and int(kk) < len(items) and (not names or v[1].startswith("{")):
                return items[int(kk)]
            t = ("fld", v, key)
            return t
        if k == "call" and key in ("Ok.0", "Err.0") and CAS.search(v[1]) and len(v[2]) > 2:
            # what an exchange that succeeded has seen is what it expected
            if key == "Ok.0":
                return v[2][1]
            if not v[1].endswith("_weak") and v[2][1] in (TRUE, FALSE):
                return ("c", not v[2][1][1])
        t = ("fld", v, key)
        return st.heap.get(t, t)

    def _field_key(self, ty, variant, idx):
        if ty:
            fs = self.p.fields(ty, variant)
            if fs and idx < len(fs):
                n = fs[idx]
                return f"{variant}.{n}" if variant else n
        return f"{variant}.{idx}" if variant else str(idx)

    @staticmethod
    def strip_ty(t):
        t = t.strip()
        m = re.match(r"(?:&(?:'\w+ )?(?:mut )?|\*const |\*mut )", t)
        if m and m.group():
            return t[m.end():]
        m = re.match(r"std::boxed::Box<(.*)>$", t)
        if m:
            return mir.split_top(m.group(1))[0]
        return t

    _TRANSPARENT_FIELD = ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::pin::Pin", "std::mem::ManuallyDrop")

    def read(self, st, place):
        base, projs = place
        if base == "static":
            return ("static", projs[0][1])
        f = st.top
        v = st.env.get((f.fid, base), ("undef", f.fid, base))
        ty = f.body.locals.get(base, "")
        variant = None
        for pr in projs:
            if pr[0] == "*":
                v = self.deref(st, v) if not (v[0] == "agg" or v[0] == "upd") else v
                ty = self.strip_ty(ty)
            elif pr[0] == "v":
                variant = pr[1]
            elif pr[0] == "f":
                h = mir.type_head(ty)
                if h in self._TRANSPARENT_FIELD and variant is None:
                    pass
                else:
                    v = self.field(st, v, self._field_key(ty, variant, pr[1]))
                ty = pr[2]
                variant = None
            elif pr[0] == "i":
                v = ("idx", self._idx_base(v), self.read(st, (pr[1], [])))
                ty = ""
            else:
                v = ("idx", self._idx_base(v), ("c", pr[1]))
                ty = ""
        return v

    @staticmethod
    def _idx_base(v):
        return v[1] if v[0] == "ptr" and v[1][0] != "loc" else v

    def place(self, st, place):
        """canonical lvalue: ('loc', fid, n, keys) or a heap term"""
        base, projs = place
        if base == "static":
            return ("static", projs[0][1])
        f = st.top
        cur = ("loc", f.fid, base, ())
        ty = f.body.locals.get(base, "")
        variant = None
        for pr in projs:
            if pr[0] == "*":
                v = self.read_path(st, cur)
                if v[0] in ("ptr", "guard"):
                    cur = v[1]
                elif v[0] in ("agg", "upd"):
                    pass
                else:
                    cur = v if v[0] != "undef" else cur
                ty = self.strip_ty(ty)
            elif pr[0] == "v":
                variant = pr[1]
            elif pr[0] == "f":
                if mir.type_head(ty) in self._TRANSPARENT_FIELD and variant is None:
                    ty = pr[2]
                    continue
                key = self._field_key(ty, variant, pr[1])
                if cur[0] == "loc":
                    v = self.read_path(st, cur)
                    if v[0] in ("ptr", "guard"):
                        cur = v[1] if v[1][0] == "loc" else v[1]
                        cur = cur[:3] + (cur[3] + (key,),) if cur[0] == "loc" else ("fld", cur, key)
                    else:
                        cur = ("loc", cur[1], cur[2], cur[3] + (key,))
                else:
                    v = st.heap.get(cur, cur)
                    if v[0] in ("ptr", "guard") and v[1][0] != "loc":
                        cur = ("fld", v[1], key)
                    elif v[0] in ("ptr", "guard"):
                        cur = v[1][:3] + (v[1][3] + (key,),)
                    else:
                        cur = ("fld", cur, key)
                ty = pr[2]
                variant = None
            else:
                iv = self.read(st, (pr[1], [])) if pr[0] == "i" else ("c", pr[1])
                cur = ("idx", cur if cur[0] != "loc" else self.read_path(st, cur), iv)
                ty = ""
        return cur

    def write(self, st, path, val):
        val = cut(val)
        if path[0] == "loc":
            key = (path[1], path[2])
            if not path[3]:
                st.env[key] = val
                return
            st.env[key] = self._upd(st.env.get(key, ("undef",) + key), path[3], val)
            return
        # heap
        path = cut(path)
        if self.rule is not None and getattr(self.rule, "remember", False) and ("was", path) not in st.data:
            d = st.facts.get(("disc", path))
            if isinstance(d, int):
                st.data[("was", path)] = d
        self.forget(st, path, keep_self=True)
        st.heap[path] = val
        if self.rule:
            self.rule_event(st, "store", path, (val,), None)

    def _upd(self, v, keys, val):
        k = keys[0]
        if len(keys) > 1:
            inner = self.field(State(), v, k) if v[0] not in ("ptr",) else ("fld", v, k)
            val = self._upd(inner, keys[1:], val)
        if v[0] == "agg":
            kk = k.split(".", 1)[1] if "." in k else k
            names, items = v[4], list(v[3])
            i = names.index(kk) if names and kk in names else (int(kk) if kk.isdigit() and int(kk) < len(items) else None)
            if i is not None:
                items[i] = val
                return ("agg", v[1], v[2], tuple(items), v[4])
        if v[0] == "upd":
            d = dict(v[2])
            d[k] = val
            return ("upd", v[1], tuple(sorted(d.items(), key=repr)))
        return ("upd", v, ((k, val),))

    def forget(self, st, path, keep_self=False):
        """a heap path may have changed: drop overrides and facts below it"""
        def below(t):
            while isinstance(t, tuple):
                if t == path:
                    return True
                if t[0] in ("fld", "idx", "disc", "isv", "un", "op", "ptr") and len(t) > 1:
                    if t[0] == "op":
                        return below(t[2]) or below(t[3])
                    t = t[1]
                else:
                    return False
            return False
        for h in [h for h in st.heap if below(h)]:
            del st.heap[h]
        for f in [f for f in st.facts if below(f)]:
            del st.facts[f]

    def strip(self, st, v, n=0):
        """value with pointers to locals replaced by what they point to"""
        if n > 6:
            return v
        if v[0] == "ptr":
            if v[1][0] == "loc":
                return self.strip(st, self.read_path(st, v[1]), n + 1)
            return v[1]
        if v[0] == "guard":
            return v
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.strip(st, x, n + 1) for x in v[3]), v[4])
        if v[0] == "upd":
            return ("upd", self.strip(st, v[1], n + 1), tuple((k, self.strip(st, x, n + 1)) for k, x in v[2]))
        return v

    def operand(self, st, op):
        if op[0] in ("copy", "move"):
            return self.read(st, op[1])
        return self.const(st, op[1])

    def const(self, st, s):
        s = s.strip()
        if s == "true":
            return TRUE
        if s == "false":
            return FALSE
        if s == "()":
            return UNIT
        m = re.fullmatch(r"(-?\d+)(?:_[iu](?:\d+|size))?", s)
        if m:
            return ("c", int(m.group(1)))
        m = re.fullmatch(r"(-?[\d.]+(?:e-?\d+)?)_?f(?:32|64)", s)
        if m:
            return ("c", float(m.group(1)))
        m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"', s, re.S)
        if m:
            return ("c", m.group(1))
        m = re.fullmatch(r"'(.*)'", s)
        if m:
            return ("c", m.group(1))
        m = re.match(r"\{?(alloc\d+)(?:\+[^:]*)?: ", s)
        if m:
            b = st.top.body
            mm = re.search(rf"^{m.group(1)} \(static: ([^,)]*)", b.text, re.M)
            if mm:
                return ("static", self.norm_static(mm.group(1)))
            return ("const", m.group(1))
        m = re.match(r"(.*)::promoted\[(\d+)\]$", s)
        if m:
            pb = self.p.promoted.get(st.top.body.name, {}).get(int(m.group(2)))
            if pb is not None:
                return self.promoted(pb)
            return ("const", s)
        m = re.match(r"(?:(?:core|std)::num::<impl )?([iu](?:\d+|size))>?::(MAX|MIN|BITS)$", s)
        if m:
            ty, w = m.group(1), m.group(2)
            bits = 64 if ty[1:] == "size" else int(ty[1:])
            if w == "BITS":
                return ("c", bits)
            if ty[0] == "u":
                return ("c", 2**bits - 1 if w == "MAX" else 0)
            return ("c", 2**(bits - 1) - 1 if w == "MAX" else -(2**(bits - 1)))
        s0 = mir.strip_generics(s)
        # named constant or function item
        b = self.p.by_pretty.get(s0)
        if b is not None and b.header.startswith(("const ", "static ")):
            return self.constant_body(b)
        return ("fn", s0) if "::" in s0 or re.fullmatch(r"\w+", s0) else ("const", s0)

    def norm_static(self, n):
        return n

    def promoted(self, b):
        c = getattr(b, "_val", None)
        if c is None:
            b._val = ("const", b.name)
            try:
                b._val = self.constant_body(b)
            except Exception:
                pass
            c = b._val
        return c

    def constant_body(self, b):
        if getattr(b, "_cval", None) is not None:
            return b._cval
        b._cval = ("const", b.pretty)
        b.parse()
        eng = Engine(self.p, None, max_states=300, max_inline=2)
        try:
            eng.run(b, {})
        except Budget:
            pass
        r = [x for k, s, x in eng.exits if k == "return"]
        if len(r) == 1 and not mentions(r[0], lambda t: isinstance(t, tuple) and t and t[0] in ("loc",)):
            b._cval = r[0]
        return b._cval

    # ------------------------------------------------------------------ facts
    def variant_count(self, ty):
        vs = self.p.variants(ty) if ty else None
        return vs

    def lookup_disc(self, st, t):
        """known variant index of value t, or None / ('!', set)"""
        if t[0] == "agg" and t[2] is not None:
            return t[2]
        return st.facts.get(("disc", t))

    def assume_disc(self, st, t, idx):
        """st' with variant(t)==idx or None if contradictory"""
        cur = self.lookup_disc(st, t)
        if isinstance(cur, int):
            return st if cur == idx else None
        if isinstance(cur, tuple) and idx in cur[1]:
            return None
        s = st.fork()
        s.facts[("disc", t)] = idx
        return s

    def enum_fork(self, st, v, n=2):
        """[(idx, state)] over the feasible variants of v (value, not pointer)"""
        out = []
        for i in range(n):
            s = self.assume_disc(st, v, i)
            if s is not None:
                out.append((i, s))
        return out

    def payload(self, st, v, key):
        return self.field(st, v, key)

    def truth(self, st, v):
        if v[0] == "c":
            return bool(v[1]) if isinstance(v[1], (bool, int)) else None
        if v[0] == "isv":
            d = self.lookup_disc(st, v[1])
            if isinstance(d, int):
                return d == v[2]
            if isinstance(d, tuple) and v[2] in d[1]:
                return False
            return None
        if v[0] == "un" and v[1] == "Not":
            t = self.truth(st, v[2])
            return None if t is None else not t
        f = st.facts.get(v)
        if isinstance(f, bool):
            return f
        if isinstance(f, int):
            return bool(f)
        if v[0] == "op" and v[1] in ("Eq", "Ne"):
            a, b = v[2], v[3]
            if a == b and a[0] != "call?":
                return v[1] == "Eq"
            r = None
            if b[0] == "c":
                fa = st.facts.get(a)
                if isinstance(fa, (int, bool)) and not isinstance(fa, tuple):
                    r = fa == b[1]
                elif isinstance(fa, tuple) and b[1] in fa[1]:
                    r = False
            if r is not None:
                return r if v[1] == "Eq" else not r
            other = ("op", "Ne" if v[1] == "Eq" else "Eq", a, b)
            fo = st.facts.get(other)
            if isinstance(fo, bool):
                return not fo
        if v[0] == "op" and v[1] in ("Lt", "Le", "Gt", "Ge"):
            neg = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[v[1]]
            fo = st.facts.get(("op", neg, v[2], v[3]))
            if isinstance(fo, bool):
                return not fo
            sw = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
            fo = st.facts.get(("op", sw[v[1]], v[3], v[2]))
            if isinstance(fo, bool):
                return fo
            fo = st.facts.get(("op", sw[neg], v[3], v[2]))
            if isinstance(fo, bool):
                return not fo
        return None

    def assume(self, st, v, val):
        t = self.truth(st, v)
        if t is not None:
            return st if t == val else None
        if v[0] == "isv":
            if val:
                return self.assume_disc(st, v[1], v[2])
            s = st.fork()
            cur = s.facts.get(("disc", v[1]))
            ex = (cur[1] if isinstance(cur, tuple) else frozenset()) | {v[2]}
            if v[3] == 2 and len(ex) < 2:
                s.facts[("disc", v[1])] = 1 - v[2]
            else:
                s.facts[("disc", v[1])] = ("!", ex)
            return s
        if v[0] == "un" and v[1] == "Not":
            return self.assume(st, v[2], not val)
        if v[0] == "op" and v[1] in ("Eq", "Ne") and v[3][0] == "c":
            want = val if v[1] == "Eq" else not val
            s = st.fork()
            s.facts[v] = val
            if want:
                s.facts[v[2]] = v[3][1]
            return s
        s = st.fork()
        s.facts[v] = val
        return s

    # ------------------------------------------------------------------ running
    def run(self, body, args=None, data=None, facts=None, heap=None, arg_names=None):
        """Explore body from its entry; args: {local: value}. Results accumulate in self.exits."""
        body.parse()
        st = State()
        st.data = dict(data or {})
        st.facts = dict(facts or {})
        st.heap = dict(heap or {})
        st.frames = [Frame(body, 0, 0, None, None)]
        for a in body.args:
            if args and a in args:
                st.env[(0, a)] = args[a]
            else:
                st.env[(0, a)] = ("arg", body.local_name(a))
        self._bind_captures(st, body, 0)
        self.work([st])
        return self

    def _bind_captures(self, st, body, fid):
        pass

    def widen(self, st):
        """a loop counter: an integer local with more than 24 different values at one place stands for all of them"""
        w = self.widened.setdefault(tuple(f.key() for f in st.frames), {})
        for k, v in list(st.env.items()):
            s = w.get(k)
            if s is True:
                if v[0] in ("c", "op"):
                    st.env[k] = ("call", "<counter>", (), st.site() + (k[1],))
            elif v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
                s = w.setdefault(k, set())
                s.add(v[1])
                if len(s) > 24:
                    w[k] = True
                    st.env[k] = ("call", "<counter>", (), st.site() + (k[1],))

    def work(self, init):
        seen = set()
        self.widened = {}
        wl = list(init)
        useful = getattr(self.rule, "useful", None)  # blocks of the root function from which what is looked for can be reached
        while wl:
            st = wl.pop()
            if useful is not None and len(st.frames) == 1 and st.top.bb not in useful:
                continue
            self.bodies_seen.add(st.top.body.pretty)
            for s2 in self.step_block(st):
                self.gc(s2)
                if s2.frames:
                    self.widen(s2)
                k = s2.key()
                if k in seen:
                    continue
                seen.add(k)
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Budget(f"state budget exceeded in {s2.frames[0].body.pretty} (at {s2.top.body.pretty} bb{s2.top.bb})")
                wl.append(s2)

    def gc(self, st):
        if not st.facts:
            return
        live = set()
        for v in st.env.values():
            live |= call_sites(v)
        for k, v in st.heap.items():
            live |= call_sites(k) | call_sites(v)
        keep = {}
        rel = getattr(self.rule, "keep_fact", None)
        for f, v in st.facts.items():
            cs = call_sites(f)
            if (rel and rel(f)) or cs <= live or (not cs and False):
                keep[f] = v
        st.facts = keep

    def step_block(self, st):
        f = st.top
        stmts, term = f.body.block(f.bb)
        for s in stmts:
            self.stmt(st, s)
        return self.terminator(st, term)

    def stmt(self, st, s):
        st.line = s[-1] or st.line
        f = st.top
        if s[0] == "dead":
            st.env.pop((f.fid, s[1]), None)
            return
        if s[0] == "setdisc":
            return
        _, pl, rv, line = s
        v = self.rvalue(st, rv, pl)
        self.write(st, self.place(st, pl), v)

    def place_type(self, st, place):
        base, projs = place
        if base == "static":
            return ""
        ty = st.top.body.locals.get(base, "")
        for pr in projs:
            if pr[0] == "*":
                ty = self.strip_ty(ty)
            elif pr[0] == "f":
                ty = pr[2]
            elif pr[0] in ("i", "c"):
                m = re.match(r"\[(.*)(?:; .*)?\]$", ty)
                ty = m.group(1) if m else ""
        return ty

    def rvalue(self, st, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "cast":
            v = self.operand(st, rv[1])
            if rv[3].startswith("IntToInt"):
                if v[0] == "c" and v[1] is True:
                    return ("c", 1)
                to = INTBITS.get(rv[2].strip())
                frm = INTBITS.get(self.place_type(st, rv[1][1]).strip()) if rv[1][0] in ("copy", "move") else None
                if to and frm and to < frm:
                    if v[0] == "c":
                        return ("c", v[1] & ((1 << to) - 1)) if isinstance(v[1], int) and v[1] >= 0 and not rv[2].strip().startswith("i") else v
                    return ("un", "as " + rv[2].strip(), self.strip(st, v))
            if rv[3].startswith("FloatToInt") and INTBITS.get(rv[2].strip(), 32) < 32 and v[0] != "c":
                return ("un", "as " + rv[2].strip(), self.strip(st, v))
            return v
        if k == "ref":
            p = self.place(st, rv[2])
            return ("ptr", p)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]))
        if k == "un":
            v = self.operand(st, rv[2])
            if rv[1] == "CopyForDeref":
                return v
            v = self.strip(st, v)
            if rv[1] == "Not":
                t = self.truth(st, v)
                if t is not None and v[0] in ("c", "isv"):
                    return ("c", not t)
                if v[0] == "un" and v[1] == "Not":
                    return v[2]
            if rv[1] == "Neg" and v[0] == "c":
                return ("c", -v[1])
            return ("un", rv[1], v)
        if k == "disc":
            v = self.strip(st, self.read(st, rv[1]))
            if v[0] == "agg" and v[2] is not None:
                return ("c", v[2])
            return ("disc", v)
        if k == "repeat":
            return ("agg", "[;]", None, (self.operand(st, rv[1]),), None)
        if k == "agg":
            ctor, names, ops = rv[1], rv[2], [self.operand(st, o) for o in rv[3]]
            dty = self.place_type(st, dest)
            vi = None
            if ctor.startswith("{"):
                ctor = dty if dty.startswith("{") else ctor
            elif ctor not in ("[]", "()"):
                vs = self.p.variants(dty)
                last = ctor.split("::")[-1]
                if vs and last in vs:
                    vi = vs.index(last)
                if vi is None and dty == "std::cmp::Ordering" and last in ORDERING:
                    ctor, vi = "std::cmp::Ordering::" + last, ORDERING[last]
            return ("agg", ctor, vi, tuple(ops), tuple(names) if names else None)
        raise ValueError(rv)

    COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}

    def binop(self, st, op, a, b):
        a, b = self.strip(st, a), self.strip(st, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Eq": lambda: x == y, "Ne": lambda: x != y,
                     "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y,
                     "Shl": lambda: x << y if 0 <= y < 128 else None, "Shr": lambda: x >> y if 0 <= y < 128 else None, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Div": lambda: x // y if isinstance(x, int) else x / y, "Rem": lambda: x % y}.get(base, lambda: None)()
            except Exception:
                r = None
            if r is not None:
                r = ("c", r)
        if r is None and base in ("Eq", "Ne") and a[0] == "disc" and b[0] == "c":
            r = ("isv", a[1], b[1], 0)
            if base == "Ne":
                r = ("un", "Not", r)
        if r is None:
            if base in self.COMM and (a[0] == "c" or (b[0] != "c" and repr(b) < repr(a))):
                a, b = b, a
            r = cut(("op", base, a, b))
        if op.endswith("WithOverflow"):
            return ("agg", "()", None, (r, FALSE), None)
        return r

    # ------------------------------------------------------------------ terminators
    def goto(self, st, bb):
        st.top.bb = bb
        return st

    def terminator(self, st, t):
        st.line = t[-1] or st.line
        k = t[0]
        f = st.top
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "switch":
            return self.switch(st, t)
        if k == "assert":
            out = []
            h = getattr(self.rule, "on_assert", None) if self.rule else None
            if h:
                h(self, st, t)
            out.append(self.goto(st.fork() if self.unwind else st, t[3]))
            return out
        if k == "drop":
            return self.drop(st, t)
        if k == "call":
            return self.call(st, t)
        if k == "yield":
            return self.do_yield(st, t)
        if k == "return":
            return self.do_return(st)
        if k == "coroutine_drop":
            return self.do_exit(st, "cancel")
        if k == "resume":
            return self.do_exit(st, "unwind")
        return []

    def switch(self, st, t):
        v = self.strip(st, self.operand(st, t[1]))
        arms, other = t[2], t[3]
        if v[0] == "c":
            val = int(v[1]) if isinstance(v[1], bool) else v[1]
            for x, bb in arms:
                if x == val:
                    return [self.goto(st, bb)]
            return [self.goto(st, other)] if other is not None else []
        out = []
        is_bool = len(arms) == 1 and arms[0][0] == 0 and v[0] not in ("disc",) and self._is_bool(st, t[1])
        if is_bool:
            for val, bb in ((False, arms[0][1]), (True, other)):
                if bb is None:
                    continue
                s = self.assume(st, v, val)
                if s is not None:
                    out.append(self.goto(s.fork(), bb))
            return out
        if v[0] == "disc":
            tgt = v[1]
            known = self.lookup_disc(st, tgt)
            ty = self._disc_type(st, t[1])
            nv = None
            if isinstance(known, int):
                for x, bb in arms:
                    if x == known:
                        return [self.goto(st, bb)]
                return [self.goto(st, other)] if other is not None else []
            excl = known[1] if isinstance(known, tuple) else frozenset()
            for x, bb in arms:
                if x in excl:
                    continue
                s = st.fork()
                s.facts[("disc", tgt)] = x
                out.append(self.goto(s, bb))
            if other is not None and not self._unreachable(f := st.top.body, other):
                s = st.fork()
                rest = excl | {x for x, _ in arms}
                n = self._nvariants(st, t)
                if n is not None and len(rest) >= n:
                    return out
                if n is not None and len(rest) == n - 1:
                    s.facts[("disc", tgt)] = next(iter(set(range(n)) - rest))
                else:
                    s.facts[("disc", tgt)] = ("!", frozenset(rest))
                out.append(self.goto(s, other))
            return out
        known = st.facts.get(v)
        for x, bb in arms:
            if isinstance(known, tuple):
                if x in known[1]:
                    continue
            elif known is not None and known != x:
                continue
            s = st.fork()
            s.facts[v] = x
            out.append(self.goto(s, bb))
        if other is not None and (known is None or isinstance(known, tuple) or known not in [x for x, _ in arms]):
            if not self._unreachable(st.top.body, other):
                s = st.fork()
                if not (known is not None and not isinstance(known, tuple)):
                    s.facts[v] = ("!", frozenset(x for x, _ in arms) | (known[1] if isinstance(known, tuple) else frozenset()))
                out.append(self.goto(s, other))
        return out

    def _is_bool(self, st, op):
        if op[0] in ("copy", "move"):
            return self.place_type(st, op[1]) == "bool"
        return True

    def _nvariants(self, st, t):
        """number of variants of the enum whose discriminant is switched on (look back in the block)"""
        op = t[1]
        if op[0] not in ("copy", "move"):
            return None
        stmts, _ = st.top.body.block(st.top.bb)
        for s in reversed(stmts):
            if s[0] == "assign" and s[1] == op[1] and s[2][0] == "disc":
                vs = self.p.variants(self.place_type(st, s[2][1]))
                return len(vs) if vs else None
        return None

    def _disc_type(self, st, op):
        return None

    @staticmethod
    def _unreachable(body, bb):
        stmts, term = body.block(bb)
        return term[0] == "unreachable"

    def do_return(self, st):
        f = st.frames.pop()
        rv = st.env.get((f.fid, 0), UNIT)
        rv = self._escape(st, rv, f.fid)
        for k in [k for k in st.env if k[0] >= f.fid]:
            del st.env[k]
        if not st.frames:
            self.exits.append(("return", st, self.strip(st, rv)))
            return []
        return self.deliver(st, f, rv)

    def _escape(self, st, v, fid):
        """replace pointers into the dying frame by values"""
        if v[0] == "ptr" and v[1][0] == "loc" and v[1][1] >= fid:
            return self._escape(st, self.read_path(st, v[1]), fid)
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self._escape(st, x, fid) for x in v[3]), v[4])
        return v

    def deliver(self, st, f, rv):
        if f.post == "ready":
            rv = ("agg", "std::task::Poll::Ready", 0, (rv,), None)
        elif isinstance(f.post, tuple) and f.post[0] == "wrap":
            rv = ("agg", f.post[1], f.post[2], (rv,), None)
        elif isinstance(f.post, tuple) and f.post[0] == "const":
            rv = f.post[1]
        elif isinstance(f.post, tuple) and f.post[0] == "selwrap":
            rv = ("agg", f"{f.post[1]}::_{f.post[2]}", f.post[2], (rv,), None)
            rv = ("agg", "std::task::Poll::Ready", 0, (rv,), None)
        elif isinstance(f.post, tuple) and f.post[0] == "filter":
            out = []
            for val in (True, False):
                s = self.assume(st, self.strip(st, rv), val)
                if s is not None:
                    s = s.fork()
                    self.write(s, f.dest, some(f.post[1]) if val else NONE)
                    if f.ret_bb is not None:
                        s.top.bb = f.ret_bb
                        out.append(s)
            return out
        if f.dest is not None:
            self.write(st, f.dest, rv)
        if f.ret_bb is None:
            return []
        st.top.bb = f.ret_bb
        return [st]

    def do_exit(self, st, kind):
        f = st.frames.pop()
        for k in [k for k in st.env if k[0] >= f.fid]:
            del st.env[k]
        if not st.frames:
            self.exits.append((kind, st, None))
            return []
        if kind == "cancel" and (f.post == "ready" or (isinstance(f.post, tuple) and f.post[0] == "selwrap")):
            if f.dest is not None:
                self.write(st, f.dest, ("agg", "std::task::Poll::Pending", 1, (), None))
            st.top.drop_only = True
            st.top.bb = f.ret_bb
            return [st]
        if kind == "unwind":
            stmts, term = st.top.body.block(st.top.bb)
            u = term[5] if term[0] == "call" else (term[3] if term[0] == "drop" else None)
            if u is None:
                return self.do_exit(st, "unwind")
            st.top.bb = u
            return [st]
        return self.do_exit(st, kind)

    def do_yield(self, st, t):
        _, dest, op, resume, dropbb, line = t
        out = []
        if self.rule and hasattr(self.rule, "on_yield"):
            self.rule.on_yield(self, st)
        if not st.top.drop_only:
            s = st.fork()
            self.write(s, self.place(s, dest), ("arg", "_task_context"))
            out.append(self.goto(s, resume))
        if (self.cancel or st.top.drop_only) and dropbb is not None:
            s = st.fork()
            s.top.drop_only = False
            if self.rule and hasattr(self.rule, "on_cancel"):
                self.rule.on_cancel(self, s)
            out.append(self.goto(s, dropbb))
        return out

    # ------------------------------------------------------------------ events
    def rule_event(self, st, kind, name, args, res):
        r = self.rule
        if r is None:
            return
        h = getattr(r, "event", None)
        if h:
            h(self, st, kind, name, args, res)

    def emit(self, st, ev, limit=2):
        """append to the bounded trace"""
        n = 0
        for e in st.trace:
            if e == ev:
                n += 1
        if n < limit:
            st.trace = st.trace + (ev,)

    # ------------------------------------------------------------------ drop
    def drop(self, st, t):
        _, pl, bb, unwind, line = t
        v = self.read(st, pl)
        ty = self.place_type(st, pl)
        return self.drop_value(st, v, ty, bb, self.place(st, pl))

    def drop_value(self, st, v, ty, bb, path=None):
        sv = v
        h = getattr(self.rule, "on_drop", None) if self.rule else None
        if h:
            h(self, st, ty, self.strip(st, sv), path)
        self.drop_guards(st, sv)
        head = mir.type_head(ty)
        b = self.impls.get((head.split("::")[-1], "Drop", "drop"))
        if b is not None and not ty.startswith("&") and head in self.p.defs and self.may_inline(st, b):
            arg = ("ptr", path) if path is not None else v
            return [self.enter(st, b, [arg], None, bb, None)]
        return [self.goto(st, bb)] if bb is not None else [st]

    def drop_guards(self, st, v, n=0):
        if v[0] == "guard":
            self.rule_event(st, "unlock", v[1], (v,), None)
        elif v[0] in ("agg",) and n < 4:
            for x in v[3]:
                self.drop_guards(st, x, n + 1)

    # ------------------------------------------------------------------ calls
    def may_inline(self, st, b):
        if len(st.frames) >= self.max_inline:
            return False
        if any(f.body is b for f in st.frames):
            return False
        if self.rule and hasattr(self.rule, "inline"):
            return self.rule.inline(b)
        return True

    def enter(self, st, b, args, dest, ret_bb, post):
        b.parse()
        fid = st.top.fid + 1
        st.frames.append(Frame(b, 0, fid, dest, ret_bb, post))
        for a, v in zip(b.args, args):
            st.env[(fid, a)] = v
        return st

    def parse_callee(self, st, text):
        """-> (path, self_type|None, value|None)"""
        c = self.__class__
        cache = getattr(c, "_pc", None)
        if cache is None:
            cache = c._pc = {}
        r = cache.get(text)
        if r is not None:
            return r
        if text.startswith("<"):
            e = mir.close_paren(text, 0)
            inner = text[1:e]
            rest = mir.strip_generics(text[e + 1:]).lstrip(":")
            # split ` as ` at top level
            i = _find_as(inner)
            if i >= 0:
                sty, tr = inner[:i], inner[i + 4:]
                r = (mir.type_head(mir.strip_generics(tr)) + "::" + rest, sty, tr)
            else:
                r = (mir.type_head(inner) + "::" + rest, inner, None)
        else:
            p = mir.strip_generics(text)
            m = re.match(r"std::ptr::(?:mut|const)_ptr::<impl \*(?:mut|const) (.*?)>::(add|offset|sub|wrapping_add|wrapping_offset)$", text)
            if m and m.group(1) not in ("u8", "i8", "std::ffi::c_void", "()"):
                p += "_" + re.sub(r"\W+", "_", m.group(1))      # counts in elements of that type, not in bytes
            r = (p, None, None)
        cache[text] = r
        return r

    def local_body(self, path, sty):
        b = self.p.by_pretty.get(path)
        if b is not None:
            return b
        if sty:
            head = mir.type_head(sty)
            parts = path.split("::")
            return self.impls.get((head.split("::")[-1], parts[-2], parts[-1]))
        # macro-expanded paths `m::<impl T>::f` or re-exported names
        return None

    def constructor(self, path, n):
        """(name, variant index) if path is the constructor of a tuple variant or tuple struct with n fields"""
        head, last = path.rsplit("::", 1) if "::" in path else ("", path)
        if last in ("Some", "Ok", "Err") and n == 1 and re.search(r"(^|::)(option|result)?(::)?(Option|Result)?$", head):
            c = OPT if last == "Some" else RES
            return c + "::" + last, {"Some": 1, "Ok": 0, "Err": 1}[last]
        d = self.p.defs.get(mir.type_head(head)) if head else None
        if d and d["kind"] == "enum":
            for i, v in enumerate(d["variants"]):
                if v[0] == last and len(v[1]) == n:
                    return path, i
        return None

    def closure_body(self, st, v):
        """body for a closure / coroutine aggregate"""
        if v[0] != "agg" or not v[1].startswith("{"):
            return None
        return self.body_of_type(st, v[1])

    def body_of_type(self, st, ty):
        cands = [b for b in self.p.bodies.values() if b.args and re.sub(r"^(?:std::pin::Pin<)?&(?:'\w+ )?(?:mut )?", "", b.arg_types[b.args[0]]).rstrip(">") == ty.rstrip(">")]
        if len(cands) > 1 and st is not None:
            for f in reversed(st.frames):
                c2 = [b for b in cands if b.name.startswith(f.body.name + "::{closure")]
                if c2:
                    cands = c2
                    break
        return cands[0] if cands else None

    def call(self, st, t):
        _, dest, callee, args, ret, unwind, line = t
        vals = [self.operand(st, a) for a in args]
        dpath = self.place(st, dest)
        f = st.top
        if callee.startswith(("move ", "copy ")):
            fv = self.strip(st, self.operand(st, mir.parse_operand(callee)))
            if fv[0] == "fn":
                path, sty, tr = self.parse_callee(st, fv[1])
            else:
                path, sty, tr = "<fnptr>", None, None
                vals = [fv] + vals
        else:
            path, sty, tr = self.parse_callee(st, callee)
        ci = CallInfo(self, st, path, sty, vals, args, dpath, ret, unwind, callee, line, dest)
        self.seen_calls.add((f.body.pretty, path))
        if self.rule and hasattr(self.rule, "call"):
            r = self.rule.call(self, st, ci)
            if r is not None:
                return r
        m = self.model(st, ci)
        if m is not None:
            return m
        # closures called directly
        if re.match(r"std::ops::(FnOnce::call_once|FnMut::call_mut|Fn::call)$", path):
            fv = self.strip_keep(st, vals[0])
            b = self.closure_body(st, fv)
            tup = self.strip_keep(st, vals[1])
            cargs = list(tup[3]) if tup[0] == "agg" else [tup]
            if b is not None and self.may_inline(st, b):
                return [self.enter(st, b, [self.closure_self(st, vals[0], b)] + cargs, dpath, ret, None)]
            if fv[0] == "fn":
                p2, s2, _ = self.parse_callee(st, fv[1])
                b = self.local_body(p2, s2)
                if b is not None and self.may_inline(st, b):
                    return [self.enter(st, b, cargs, dpath, ret, None)]
        b = self.local_body(path, sty)
        if b is not None and self.may_inline(st, b):
            if b.is_coroutine is False:
                out = []
                if self.unwind and hasattr(self.rule, "may_panic") and self.rule.may_panic(self, st, ci):
                    pass
                return [self.enter(st, b, vals, dpath, ret, None)]
        return self.extern(st, ci)

    def closure_self(self, st, v, b):
        """closures take self by value or by reference; pointers are transparent for field reads"""
        return v

    def strip_keep(self, st, v, n=0):
        while v[0] == "ptr" and n < 8:
            v = self.read_path(st, v[1])
            n += 1
        return v

    def extern(self, st, ci):
        args = tuple(self.strip(st, v) for v in ci.vals)
        site = st.site()
        res = cut(("call", ci.path, args, site))
        h = getattr(self.rule, "before", None)
        if h:
            h(self, st, ci.path, args)
        res = self.fresh(st, res, site, ci.path)
        self.clobber(st, ci)
        self.rule_event(st, "call", ci.path, args, res)
        return self.finish(st, ci, res)

    def fresh(self, st, res, site, path):
        """the result of re-executing a call site replaces the older one"""
        olds = set()
        for v in list(st.env.values()) + list(st.heap.values()):
            for c in call_sites(v):
                if c[3:] == (site,) and c[1] == path:
                    olds.add(c)
        for fct in st.facts:
            for c in call_sites(fct):
                if c[3:] == (site,) and c[1] == path:
                    olds.add(c)
        age = getattr(self.rule, "age", None)  # what a rule wants to remember about the replaced value
        for o in olds:
            tag = age(self, st, o) if age else ()
            for k in list(st.env):
                st.env[k] = subst_old(st.env[k], o, tag)
            for k in list(st.heap):
                v = st.heap.pop(k)
                st.heap[subst_old(k, o, tag)] = subst_old(v, o, tag)
            for k in [k for k in st.facts if o in call_sites(k)]:
                del st.facts[k]
        return res

    def clobber(self, st, ci):
        for v, op in zip(ci.vals, ci.ops):
            ty = self.place_type(st, op[1]) if op[0] in ("copy", "move") else ""
            if not re.match(r"&(?:'\w+ )?mut |\*mut |std::pin::Pin<&", ty):
                continue
            if v[0] in ("ptr", "guard"):
                p = v[1]
                if p[0] == "loc":
                    old = self.read_path(st, p)
                    if old[0] in ("ptr", "guard"):
                        if old[0] == "ptr" and old[1][0] != "loc":
                            self.forget(st, old[1])
                        continue
                    if old[0] == "mut":
                        old = old[1]
                    if old[0] in ("agg", "c", "undef", "upd") or True:
                        self.write(st, p, cut(("mut", old, ci.path)))
                else:
                    self.forget(st, p)
            else:
                self.forget(st, v)

    def finish(self, st, ci, val):
        self.write(st, ci.dpath, val)
        if ci.ret is None:
            self.exits.append(("diverge", st, None)) if False else None
            return []
        out = []
        if self.unwind and ci.unwind is not None and self.rule and hasattr(self.rule, "may_panic") and self.rule.may_panic(self, st, ci):
            s = st.fork()
            s.top.bb = ci.unwind
            out.append(s)
        st.top.bb = ci.ret
        out.append(st)
        return out

    # ------------------------------------------------------------------ models
    def model(self, st, ci):
        p = ci.path
        v = ci.vals
        if TRANSPARENT.match(p):
            # a crate type may implement Deref / Clone / Into itself
            if ci.sty:
                b = self.local_body(p, ci.sty)
                if b is not None and not b.name.count("derive") and p.split("::")[-1] not in ("clone",):
                    if self.may_inline(st, b):
                        return [self.enter(st, b, v, ci.dpath, ci.ret, None)]
            if not v:
                return None
            x = v[0]
            last = p.split("::")[-1]
            if x[0] == "ptr" and x[1][0] == "loc":
                inner = self.read_path(st, x[1])
                if inner[0] in ("ptr", "guard"):
                    x = ("ptr", inner[1])
                elif last in ("clone", "cloned", "copied", "to_owned", "to_string", "to_vec"):
                    x = inner
                elif inner[0] not in ("agg", "upd", "c", "undef", "mut") and last in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "get"):
                    x = ("ptr", inner)
            elif x[0] == "ptr" and last in ("clone", "cloned", "copied"):
                # cloning what a heap path holds: the value (an Rc/Arc/Sender path stays a path)
                inner = self.read_path(st, x[1])
                x = inner
            elif x[0] == "guard" and last in ("deref", "deref_mut"):
                x = ("ptr", x[1])
            return self.finish(st, ci, x)
        h = MODELS.get(p)
        if h is None:
            for rx, fn in MODEL_RX:
                if rx.match(p):
                    h = fn
                    break
        if h is not None:
            return h(self, st, ci)
        return None


class CallInfo:
    __slots__ = ("eng", "path", "sty", "vals", "ops", "dpath", "ret", "unwind", "text", "line", "dest", "args")

    def __init__(self, eng, st, path, sty, vals, ops, dpath, ret, unwind, text, line, dest):
        self.eng, self.path, self.sty, self.vals, self.ops, self.dpath = eng, path, sty, vals, ops, dpath
        self.ret, self.unwind, self.text, self.line, self.dest = ret, unwind, text, line, dest


def _find_as(s):
    depth, i = 0, 0
    while i < len(s):
        c = s[i]
        if c in "([{<":
            depth += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            depth -= 1
        elif depth == 0 and s.startswith(" as ", i):
            return i
        i += 1
    return -1


# ---------------------------------------------------------------------- std models
MODELS, MODEL_RX = {}, []


def model(*paths):
    def d(fn):
        for p in paths:
            MODELS[p] = fn
        return fn
    return d


OPT, RES = "std::option::Option", "std::result::Result"


def some(x):
    return ("agg", OPT + "::Some", 1, (x,), None)


NONE = ("agg", OPT + "::None", 0, (), None)


def okv(x):
    return ("agg", RES + "::Ok", 0, (x,), None)


def errv(x):
    return ("agg", RES + "::Err", 1, (x,), None)


GOOD = {OPT: (1, "Some.0", "None"), RES: (0, "Ok.0", "Err.0")}


def _container(ci):
    return OPT if ci.path.startswith(OPT) else RES


def val0(e, st, ci):
    return e.strip_keep(st, ci.vals[0])


@model(OPT + "::unwrap", OPT + "::expect", RES + "::unwrap", RES + "::expect", OPT + "::unwrap_unchecked", RES + "::unwrap_unchecked")
def m_unwrap(e, st, ci):
    c = _container(ci)
    x = val0(e, st, ci)
    s = e.assume_disc(st, x, GOOD[c][0])
    if s is None:
        return []
    out = []
    if e.rule and hasattr(e.rule, "on_panic"):
        e.rule.on_panic(e, s, ci, x)
    return e.finish(s.fork() if s is st else s, ci, e.payload(s, x, GOOD[c][1]))


@model(RES + "::unwrap_err", RES + "::expect_err")
def m_unwrap_err(e, st, ci):
    x = val0(e, st, ci)
    s = e.assume_disc(st, x, 1)
    return [] if s is None else e.finish(s, ci, e.payload(s, x, "Err.0"))


def _isv(idx):
    def f(e, st, ci):
        x = val0(e, st, ci)
        r = ("isv", x, idx, 2)
        t = e.truth(st, r)
        return e.finish(st, ci, ("c", t) if t is not None else r)
    return f


MODELS[OPT + "::is_some"] = _isv(1)
MODELS[OPT + "::is_none"] = _isv(0)
MODELS[RES + "::is_ok"] = _isv(0)
MODELS[RES + "::is_err"] = _isv(1)


@model(RES + "::ok")
def m_ok(e, st, ci):
    x = val0(e, st, ci)
    out = []
    for i, s in e.enum_fork(st, x):
        out += e.finish(s.fork(), ci, some(e.payload(s, x, "Ok.0")) if i == 0 else NONE)
    return out


@model(RES + "::err")
def m_err(e, st, ci):
    x = val0(e, st, ci)
    out = []
    for i, s in e.enum_fork(st, x):
        out += e.finish(s.fork(), ci, some(e.payload(s, x, "Err.0")) if i == 1 else NONE)
    return out


def _call_closure(e, st, fv, args, ci, post):
    b = e.closure_body(st, e.strip_keep(st, fv))
    if b is None and e.strip_keep(st, fv)[0] == "fn":
        fp = e.strip_keep(st, fv)[1]
        p2, s2, _ = e.parse_callee(st, fp)
        b = e.local_body(p2, s2)
        if b is not None and e.may_inline(st, b):
            return [e.enter(st, b, args, ci.dpath, ci.ret, post)]
        if TRANSPARENT.match(p2) and args:
            v = args[0]
        elif e.constructor(p2, len(args)):
            n, i = e.constructor(p2, len(args))
            v = ("agg", n, i, tuple(args), None)
        else:
            site = st.site()
            v = cut(("call", p2, tuple(e.strip(st, a) for a in args), site))
            e.rule_event(st, "call", p2, tuple(e.strip(st, a) for a in args), v)
        return _finish_post(e, st, ci, v, post)
    if b is None or not e.may_inline(st, b):
        site = st.site()
        v = cut(("call", "<closure>", tuple(e.strip(st, a) for a in [fv] + args), site))
        return _finish_post(e, st, ci, v, post)
    return [e.enter(st, b, [fv] + args, ci.dpath, ci.ret, post)]


def _finish_post(e, st, ci, v, post):
    if isinstance(post, tuple) and post[0] == "wrap":
        v = ("agg", post[1], post[2], (v,), None)
    elif isinstance(post, tuple) and post[0] == "const":
        v = post[1]
    elif isinstance(post, tuple) and post[0] == "filter":
        out = []
        for val in (True, False):
            s = e.assume(st, v, val)
            if s is not None:
                out += e.finish(s.fork(), ci, some(post[1]) if val else NONE)
        return out
    return e.finish(st, ci, v)


def _ty(c, good):
    i = GOOD[c][0] if good else 1 - GOOD[c][0]
    return (("wrap", c + "::" + mir.STD_VARIANTS[c][i], i))


@model(OPT + "::map", RES + "::map")
def m_map(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == GOOD[c][0]:
            out += _call_closure(e, s, ci.vals[1], [e.payload(s, x, GOOD[c][1])], ci, _ty(c, True))
        else:
            out += e.finish(s, ci, NONE if c == OPT else errv(e.payload(s, x, "Err.0")))
    return out


@model(RES + "::map_err")
def m_map_err(e, st, ci):
    x, out = val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == 1:
            out += _call_closure(e, s, ci.vals[1], [e.payload(s, x, "Err.0")], ci, _ty(RES, False))
        else:
            out += e.finish(s, ci, okv(e.payload(s, x, "Ok.0")))
    return out


@model(OPT + "::and_then", RES + "::and_then")
def m_and_then(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == GOOD[c][0]:
            out += _call_closure(e, s, ci.vals[1], [e.payload(s, x, GOOD[c][1])], ci, None)
        else:
            out += e.finish(s, ci, NONE if c == OPT else errv(e.payload(s, x, "Err.0")))
    return out


@model(RES + "::is_err_and")
def m_is_err_and(e, st, ci):
    x, out = val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        out += _call_closure(e, s, ci.vals[1], [e.payload(s, x, "Err.0")], ci, None) if i == 1 else e.finish(s, ci, FALSE)
    return out


def m_unit_eq(e, st, ci):
    """comparison with a variant that carries nothing, by a derived equality"""
    a, b = (e.strip(st, v) for v in ci.vals[:2])
    if b[0] != "agg" and a[0] == "agg":
        a, b = b, a
    if b[0] == "agg" and b[2] == 1 and b[1].endswith("::Err") and len(b[3]) == 1 and b[3][0][0] == "agg" and b[3][0][2] is not None and not b[3][0][3] and a[0] != "agg":
        # x == Err(Unit): an error, and that one
        out, x, u = [], a, b[3][0]
        for i, s in e.enum_fork(st, x):
            r = ("isv", e.payload(s, x, "Err.0"), u[2], 0) if i == 1 else FALSE
            out += e.finish(s.fork(), ci, r if ci.path.endswith("eq") else ("un", "Not", r) if i == 1 else TRUE)
        return out
    if not (b[0] == "agg" and b[2] is not None and not b[3]) or a[0] == "agg":
        return None
    ty = mir.type_head(re.sub(r"^(&('\w+ )?)+", "", ci.sty or ""))
    lb = e.local_body(ci.path, ci.sty) if ci.sty else None
    if ty.startswith("std::option::Option") or (lb is not None and "derive" not in lb.name and ty in e.p.defs and e.may_inline(st, lb)):
        return None
    r = ("isv", a, b[2], 0)
    return e.finish(st, ci, r if ci.path.endswith("eq") else ("un", "Not", r))


@model(OPT + "::is_some_and", RES + "::is_ok_and", OPT + "::map_or", RES + "::map_or", OPT + "::is_none_or", OPT + "::map_or_else", RES + "::map_or_else")
def m_is_and(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    last = ci.path.split("::")[-1]
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == GOOD[c][0]:
            out += _call_closure(e, s, ci.vals[-1], [e.payload(s, x, GOOD[c][1])], ci, None)
        elif last == "map_or":
            out += e.finish(s, ci, ci.vals[1])
        elif last == "map_or_else":
            out += _call_closure(e, s, ci.vals[1], [] if c == OPT else [e.payload(s, x, "Err.0")], ci, None)
        else:
            out += e.finish(s, ci, ("c", last == "is_none_or"))
    return out


@model(OPT + "::unwrap_or", RES + "::unwrap_or")
def m_unwrap_or(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        out += e.finish(s, ci, e.payload(s, x, GOOD[c][1]) if i == GOOD[c][0] else ci.vals[1])
    return out


@model(OPT + "::unwrap_or_default", RES + "::unwrap_or_default")
def m_unwrap_or_default(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        out += e.finish(s, ci, e.payload(s, x, GOOD[c][1]) if i == GOOD[c][0] else ("default",))
    return out


@model(OPT + "::unwrap_or_else", RES + "::unwrap_or_else")
def m_unwrap_or_else(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == GOOD[c][0]:
            out += e.finish(s, ci, e.payload(s, x, GOOD[c][1]))
        else:
            out += _call_closure(e, s, ci.vals[1], [] if c == OPT else [e.payload(s, x, "Err.0")], ci, None)
    return out


@model(OPT + "::or_else", OPT + "::or", RES + "::or_else")
def m_or_else(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == GOOD[c][0]:
            out += e.finish(s, ci, x)
        elif ci.path.endswith("::or"):
            out += e.finish(s, ci, ci.vals[1])
        else:
            out += _call_closure(e, s, ci.vals[1], [] if c == OPT else [e.payload(s, x, "Err.0")], ci, None)
    return out


@model(OPT + "::ok_or", OPT + "::ok_or_else")
def m_ok_or(e, st, ci):
    x, out = val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == 1:
            out += e.finish(s, ci, okv(e.payload(s, x, "Some.0")))
        elif ci.path.endswith("ok_or"):
            out += e.finish(s, ci, errv(ci.vals[1]))
        else:
            out += _call_closure(e, s, ci.vals[1], [], ci, _ty(RES, False))
    return out


@model(OPT + "::filter")
def m_filter(e, st, ci):
    x, out = val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == 0:
            out += e.finish(s, ci, NONE)
        else:
            v = e.payload(s, x, "Some.0")
            out += _call_closure(e, s, ci.vals[1], [v], ci, ("filter", v))
    return out


@model(OPT + "::inspect", RES + "::inspect", RES + "::inspect_err")
def m_inspect(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    good = not ci.path.endswith("_err")
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if (i == GOOD[c][0]) == good:
            out += _call_closure(e, s, ci.vals[1], [e.payload(s, x, GOOD[c][1] if good else "Err.0")], ci, ("const", x))
        else:
            out += e.finish(s, ci, x)
    return out


@model(OPT + "::flatten")
def m_flatten(e, st, ci):
    x, out = val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        out += e.finish(s, ci, e.payload(s, x, "Some.0") if i == 1 else NONE)
    return out


@model(OPT + "::and", RES + "::and")
def m_and(e, st, ci):
    c, x, out = _container(ci), val0(e, st, ci), []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        out += e.finish(s, ci, ci.vals[1] if i == GOOD[c][0] else NONE if c == OPT else errv(e.payload(s, x, "Err.0")))
    return out


ARRITER = re.compile(r"^(&mut )?(std|core)::(array::IntoIter|slice::Iter|slice::IterMut)<")
OPTITER = re.compile(r"^(&mut )?(std|core)::option::(IntoIter|Iter|IterMut|Item)<")


@model("std::iter::Iterator::next")
def m_next(e, st, ci):
    """the iterator over an option yields it once; one over a short array that is written out yields its elements"""
    if ARRITER.match(ci.sty or ""):
        p = ci.vals[0]
        path = p[1] if p[0] in ("ptr", "guard") else p
        x = val0(e, st, ci)
        if path[0] != "loc" or x[0] != "agg" or x[1] != "[]" or len(x[3]) > 16:
            return None
        if not x[3]:
            return e.finish(st, ci, NONE)
        e.write(st, path, ("agg", "[]", None, x[3][1:], None))
        return e.finish(st, ci, some(x[3][0]))
    if not OPTITER.match(ci.sty or ""):
        return None
    return m_take(e, st, ci)


@model("std::iter::Iterator::for_each")
def m_for_each(e, st, ci):
    """the loop it stands for: next, then the closure, then again"""
    if OPTITER.match(ci.sty or ""):
        x, out = val0(e, st, ci), []
        for i, s in e.enum_fork(st, x):
            s = s.fork()
            if i == 0:
                out += e.finish(s, ci, UNIT)
            else:
                out += _call_closure(e, s, ci.vals[1], [e.payload(s, x, "Some.0")], ci, ("const", UNIT))
        return out
    fv = e.strip_keep(st, ci.vals[1])
    site = st.site()
    args = (e.strip(st, ci.vals[0]),)
    res = cut(("call", "std::iter::Iterator::next", args, site))
    res = e.fresh(st, res, site, "std::iter::Iterator::next")
    e.rule_event(st, "call", "std::iter::Iterator::next", args, res)
    out = []
    for i, s in e.enum_fork(st, res):
        s = s.fork()
        if i == 0:
            out += e.finish(s, ci, UNIT)
        elif fv[0] == "fn" and fv[1].split("::<")[0] in ("std::mem::drop", "core::mem::drop", "drop"):
            s.top.bb = site[1]
            m = re.search(r"::<(.*)>$", fv[1])
            out += e.drop_value(s, e.payload(s, res, "Some.0"), m.group(1) if m else "", site[1])
        else:
            b = e.closure_body(s, fv)
            if b is None or not e.may_inline(s, b):
                return e.extern(st, ci)
            out.append(e.enter(s, b, [fv, e.payload(s, res, "Some.0")], None, site[1], None))
    return out


@model("std::mem::swap")
def m_swap(e, st, ci):
    a, b = ci.vals[0], ci.vals[1]
    pa, pb = (x[1] if x[0] in ("ptr", "guard") else x for x in (a, b))
    va, vb = e.strip(st, e.read_path(st, pa)), e.strip(st, e.read_path(st, pb))
    e.write(st, pa, vb)
    e.write(st, pb, va)
    return e.finish(st, ci, UNIT)


@model("std::ops::Try::branch")
def m_branch(e, st, ci):
    x = val0(e, st, ci)
    c = OPT if mir.type_head(ci.sty or "") == OPT else RES
    out = []
    for i, s in e.enum_fork(st, x):
        s = s.fork()
        if i == GOOD[c][0]:
            out += e.finish(s, ci, ("agg", "std::ops::ControlFlow::Continue", 0, (e.payload(s, x, GOOD[c][1]),), None))
        else:
            r = NONE if c == OPT else errv(e.payload(s, x, "Err.0"))
            out += e.finish(s, ci, ("agg", "std::ops::ControlFlow::Break", 1, (r,), None))
    return out


@model("std::ops::FromResidual::from_residual")
def m_from_residual(e, st, ci):
    return e.finish(st, ci, val0(e, st, ci))


@model(OPT + "::take")
def m_take(e, st, ci):
    p = ci.vals[0]
    x = val0(e, st, ci)
    if p[0] in ("ptr", "guard"):
        path = p[1]
    else:
        path = p
    # Facts about the taken value stay with the value, the place now holds None.
    if path[0] == "loc":
        e.write(st, path, NONE)
    else:
        d = e.lookup_disc(st, x)
        e.write(st, path, NONE)
        if d is not None and x[0] != "agg":
            st.facts[("disc", x)] = d
    return e.finish(st, ci, x)


@model("std::mem::replace", OPT + "::replace")
def m_replace(e, st, ci):
    p = ci.vals[0]
    x = val0(e, st, ci)
    new = ci.vals[1]
    if ci.path.endswith("Option::replace"):
        new = some(new)
    path = p[1] if p[0] in ("ptr", "guard") else p
    d = e.lookup_disc(st, x)
    e.write(st, path, new)
    if d is not None and x[0] != "agg":
        st.facts[("disc", x)] = d
    return e.finish(st, ci, x)


@model("std::mem::take")
def m_mtake(e, st, ci):
    p = ci.vals[0]
    x = val0(e, st, ci)
    path = p[1] if p[0] in ("ptr", "guard") else p
    e.write(st, path, ("default",))
    return e.finish(st, ci, x)


@model("std::mem::drop", "core::mem::drop", "std::ptr::drop_in_place")
def m_drop(e, st, ci):
    op = ci.ops[0]
    ty = e.place_type(st, op[1]) if op[0] in ("copy", "move") else ""
    e.write(st, ci.dpath, UNIT)
    return e.drop_value(st, ci.vals[0], ty, ci.ret)


@model("std::sync::Mutex::lock", "std::sync::RwLock::write", "std::sync::RwLock::read")
def m_lock(e, st, ci):
    x = ci.vals[0]
    path = x[1] if x[0] in ("ptr",) else x
    if path[0] == "loc":
        v = e.read_path(st, path)
        if v[0] == "ptr":
            path = v[1]
        elif v[0] not in ("agg", "upd", "undef", "c"):
            path = v
    site = st.site()
    g = ("guard", path, "w" if not ci.path.endswith("read") else "r")
    e.rule_event(st, "lock", path, (g,), None)
    return e.finish(st, ci, okv(g))


@model("std::cell::Cell::get", "std::cell::Cell::into_inner")
def m_cell_get(e, st, ci):
    return e.finish(st, ci, val0(e, st, ci))


@model("std::cell::Cell::set", "std::cell::Cell::replace", "std::cell::RefCell::replace", "std::cell::Cell::take")
def m_cell_set(e, st, ci):
    p = ci.vals[0]
    path = p[1] if p[0] in ("ptr", "guard") else p
    old = e.read_path(st, path)
    e.write(st, path, ci.vals[1] if len(ci.vals) > 1 else ("default",))
    return e.finish(st, ci, UNIT if ci.path.endswith("set") else old)


@model("std::future::get_context")
def m_ctx(e, st, ci):
    return e.finish(st, ci, ("arg", "_task_context"))


@model("tokio::macros::support::poll_budget_available")
def m_budget(e, st, ci):
    return e.finish(st, ci, ("agg", "std::task::Poll::Ready", 0, (UNIT,), None))


@model("tokio::runtime::Runtime::block_on", "tokio::runtime::Handle::block_on", "tokio::task::LocalSet::block_on", "futures::executor::block_on")
def m_block_on(e, st, ci):
    for v in ci.vals:
        fm = e.strip_keep(st, v)
        while fm[0] == "mut":
            fm = fm[1]
        if fm[0] == "agg" and fm[1].startswith("{async"):
            b = e.closure_body(st, fm)
            if b is not None and e.may_inline(st, b):
                return [e.enter(st, b, [fm, ("arg", "_task_context")], ci.dpath, ci.ret, None)]
    return e.extern(st, ci)


@model("std::future::Future::poll")
def m_poll(e, st, ci):
    fut = e.strip_keep(st, ci.vals[0])
    site = st.site()
    out = []
    ready, pend = "std::task::Poll::Ready", ("agg", "std::task::Poll::Pending", 1, (), None)
    fm = fut
    while fm[0] == "mut":
        fm = fm[1]
    if fm[0] == "agg" and fm[1].startswith("{async"):
        b = e.closure_body(st, fm)
        if b is not None and e.may_inline(st, b):
            return [e.enter(st, b, [fm, ("arg", "_task_context")], ci.dpath, ci.ret, "ready")]
    # select!: PollFn over a closure capturing (&mut disabled, &mut (futures..))
    if fm[0] == "call" and fm[1].endswith("poll_fn"):
        pass
    if fm[0] == "pollfn":
        clo = fm[1]
        futs, off = None, None
        for it in clo[3]:
            y = e.strip_keep(st, it)
            if y[0] == "agg" and y[1] == "()":
                futs = y[3]
            else:
                off = y
        if futs:
            if e.rule and hasattr(e.rule, "on_select"):
                e.rule.on_select(e, st, [e.strip(st, x) for x in futs], off)
            outty = _select_out(e, st, ci)
            for k, fu in enumerate(futs):
                s = st.fork()
                f1 = e.strip_keep(s, fu)
                while f1[0] == "mut":
                    f1 = f1[1]
                if f1[0] == "agg" and f1[1].startswith("{async"):
                    b = e.closure_body(s, f1)
                    if b is not None and e.may_inline(s, b):
                        # result wrapped as Ready(Out::_k(x))
                        e.rule_event(s, "select", k, (f1,), None)
                        out.append(e.enter(s, b, [f1, ("arg", "_task_context")], ci.dpath, ci.ret, ("selwrap", outty, k)))
                        continue
                res = cut(("call", "await", (e.strip(s, f1),), site))
                res = e.fresh(s, res, site, "await")
                e.rule_event(s, "select", k, (e.strip(s, f1),), res)
                e.rule_event(s, "call", "await", (e.strip(s, f1),), res)
                v = ("agg", f"{outty}::_{k}", k, (res,), None)
                out += e.finish(s, ci, ("agg", ready, 0, (v,), None))
            s = st.fork()
            out += e.finish(s, ci, ("agg", ready, 0, (("agg", f"{outty}::Disabled", len(futs), (), None),), None))
            out += e.finish(st.fork(), ci, pend)
            return out
        b = e.closure_body(st, clo)
        if b is not None and e.may_inline(st, b):
            s = st.fork()
            out += e.finish(s, ci, pend) if False else []
            return out + [e.enter(st, b, [clo, ("arg", "_task_context")], ci.dpath, ci.ret, None)]
    if ci.sty and not (fm[0] == "call"):
        b = e.local_body(ci.path, re.sub(r"^&(?:'\w+ )?(?:mut )?", "", ci.sty))
        if b is not None and e.may_inline(st, b):
            return [e.enter(st, b, ci.vals, ci.dpath, ci.ret, None)]
    s = st.fork()
    res = cut(("call", "await", (e.strip(s, fm),), site))
    res = e.fresh(s, res, site, "await")
    e.rule_event(s, "call", "await", (e.strip(s, fm),), res)
    out += e.finish(s, ci, ("agg", ready, 0, (res,), None))
    s = st.fork()
    if e.rule and hasattr(e.rule, "on_pending"):
        e.rule.on_pending(e, s, e.strip(s, fm))
    out += e.finish(s, ci, pend)
    return out


def _select_out(e, st, ci):
    ty = e.place_type(st, ci.dest)
    m = re.match(r"std::task::Poll<(.*)>$", ty)
    return mir.type_head(m.group(1)) if m else "Out"


@model("std::future::poll_fn")
def m_pollfn(e, st, ci):
    return e.finish(st, ci, ("pollfn", ci.vals[0]))


@model("std::thread::LocalKey::with", "std::thread::LocalKey::with_borrow", "std::thread::LocalKey::with_borrow_mut")
def m_with(e, st, ci):
    k = e.strip(st, ci.vals[0])
    return _call_closure(e, st, ci.vals[1], [("ptr", ("tls", k))], ci, None)


@model("std::thread::LocalKey::try_with")
def m_try_with(e, st, ci):
    gone = st.fork()
    k = e.strip(st, ci.vals[0])
    return _call_closure(e, st, ci.vals[1], [("ptr", ("tls", k))], ci, ("wrap", RES + "::Ok", 0)) + e.finish(gone, ci, ("agg", RES + "::Err", 1, (("call", "access_error", (), gone.site()),), None))


@model("std::thread::LocalKey::set", "std::thread::LocalKey::replace", "std::thread::LocalKey::take", "std::thread::LocalKey::get")
def m_key_set(e, st, ci):
    path = ("tls", e.strip(st, ci.vals[0]))
    old = e.strip(st, e.read_path(st, path))
    if not ci.path.endswith("get"):
        d = e.lookup_disc(st, old)
        e.write(st, path, ci.vals[1] if len(ci.vals) > 1 else ("default",))
        if d is not None and old[0] != "agg":
            st.facts[("disc", old)] = d
    return e.finish(st, ci, UNIT if ci.path.endswith("set") else old)


INTTY = re.compile(r"^(u|i)(8|16|32|64|128|size)$")


def _fits(src, dst):
    b = {t: 64 if t[1:] == "size" else int(t[1:]) for t in (src, dst)}
    return src[0] == dst[0] and b[src] <= b[dst] or src[0] == "u" and dst[0] == "i" and b[src] < b[dst]


@model("std::mem::size_of")
def m_size_of(e, st, ci):
    m = re.search(r"size_of::<([ui])(\d+|size)>", ci.text)
    return e.finish(st, ci, ("c", 8 if m.group(2) == "size" else int(m.group(2)) // 8)) if m else None


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_try_int(e, st, ci):
    """between integers: the value itself, or an error"""
    tys = [ci.sty or ""] + (re.findall(r"Try(?:From|Into)<(\w+)>", ci.text) or [""])
    if not all(INTTY.match(t) for t in tys):
        return None
    x = val0(e, st, ci)
    dst, src = tys[:2] if ci.path.endswith("try_from") else tys[1::-1]
    if _fits(src, dst):
        return e.finish(st, ci, okv(x))
    err = e.fresh(st, cut(("call", ci.path, (x,), st.site())), st.site(), ci.path)
    return e.finish(st.fork(), ci, okv(x)) + e.finish(st, ci, errv(err))


@model("std::default::Default::default")
def m_default(e, st, ci):
    t = (ci.sty or "").strip()
    if INTTY.match(t):
        return e.finish(st, ci, ("c", 0))
    if t == "bool":
        return e.finish(st, ci, FALSE)
    if mir.type_head(t) == OPT:
        return e.finish(st, ci, NONE)
    return None


@model("std::sync::Once::call_once")
def m_once(e, st, ci):
    out = e.finish(st.fork(), ci, UNIT)
    return out + _call_closure(e, st, ci.vals[1], [], ci, ("const", UNIT))


@model("std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init", "std::sync::LazyLock::force")
def m_once_get(e, st, ci):
    x = ci.vals[0]
    return e.finish(st, ci, ("ptr", x[1]) if x[0] == "ptr" else x)


def _level(e, st, ci):
    return e.finish(st, ci, FALSE)


MODEL_RX.append((re.compile(r"std::cmp::PartialOrd::(le|lt|ge|gt)$"), lambda e, st, ci: _level(e, st, ci) if ci.sty and "tracing" in ci.sty else _cmp(e, st, ci)))
MODEL_RX.append((re.compile(r"std::cmp::PartialEq::(eq|ne)$"), lambda e, st, ci: _cmp(e, st, ci)))
MODEL_RX.append((re.compile(r"v8::(.*::)?FunctionCallbackArguments::(get|length)$|v8::value::is_\w+$"), lambda e, st, ci: m_fixed(e, st, ci)))


def m_fixed(e, st, ci):
    """the same answer wherever it is asked"""
    args = tuple(e.strip(st, v) for v in ci.vals)
    res = cut(("call", ci.path, args, "any"))
    e.rule_event(st, "call", ci.path, args, res)
    return e.finish(st, ci, res)


MODEL_RX.append((re.compile(r"(std|core)::panicking::|std::rt::(begin_panic|panic_)|core::option::(unwrap|expect)_failed|std::process::(exit|abort)|core::result::unwrap_failed"), lambda e, st, ci: _diverge(e, st, ci)))


def _diverge(e, st, ci):
    if e.rule and hasattr(e.rule, "on_diverge"):
        e.rule.on_diverge(e, st, ci)
    if e.unwind and ci.unwind is not None:
        st.top.bb = ci.unwind
        return [st]
    return []


def _order(e, st, ci):
    """three-way comparison of integers: one path per outcome"""
    a, b = e.strip(st, ci.vals[0]), e.strip(st, ci.vals[1])
    if (ci.sty or "").lstrip("&") not in INTBITS:
        return e.extern(st, ci)
    out = []
    for name, tests in (("Less", (("Lt", True),)), ("Equal", (("Eq", True), ("Lt", False), ("Gt", False))), ("Greater", (("Gt", True),))):
        s = st
        for op, val in tests:
            s = s and e.assume(s, e.binop(s, op, a, b), val)
        if s is not None:
            v = ordering(name)
            s = s.fork()
            out += e.finish(s, ci, some(v) if ci.path.endswith("partial_cmp") else v)
    return out


def _order_is(e, st, ci):
    v = e.strip(st, ci.vals[0])
    m = ci.path.split("::")[-1][3:]
    if v[0] == "agg" and v[1].startswith("std::cmp::Ordering::"):
        n = v[1].split("::")[-1]
        return e.finish(st, ci, ("c", n in {"gt": ("Greater",), "lt": ("Less",), "eq": ("Equal",), "ne": ("Greater", "Less"), "ge": ("Greater", "Equal"), "le": ("Less", "Equal")}[m]))
    return e.extern(st, ci)


def _bool_then(e, st, ci):
    v = e.strip(st, ci.vals[0])
    out = []
    for val in (True, False):
        s = e.assume(st, v, val)
        if s is None:
            continue
        s = s.fork()
        if not val:
            out += e.finish(s, ci, NONE)
        elif ci.path.endswith("then_some"):
            out += e.finish(s, ci, some(ci.vals[1]))
        else:
            out += _call_closure(e, s, ci.vals[1], [], ci, _ty(OPT, True))
    return out


MODEL_RX.append((re.compile(r"std::cmp::(Ord::cmp|PartialOrd::partial_cmp)$"), _order))
MODEL_RX.append((re.compile(r"std::cmp::Ordering::is_(gt|lt|ge|le|eq|ne)$"), _order_is))
MODEL_RX.append((re.compile(r"(.*::)?bool::(then|then_some)$"), _bool_then))


def _cmp(e, st, ci):
    m = ci.path.split("::")[-1]
    op = {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt", "eq": "Eq", "ne": "Ne"}[m]
    a, b = e.strip(st, ci.vals[0]), e.strip(st, ci.vals[1])
    if op in ("Eq", "Ne") and all(x[0] == "agg" and x[1].startswith("std::cmp::Ordering::") for x in (a, b)):
        return e.finish(st, ci, ("c", (a[1] == b[1]) == (op == "Eq")))
    if op in ("Eq", "Ne"):
        u = m_unit_eq(e, st, ci)
        if u is not None:
            return u
    if ci.sty:
        # derived PartialEq on a field-less crate enum compares discriminants
        vs = e.p.variants(ci.sty)
        if vs and op in ("Eq", "Ne"):
            ai, bi = (x[2] if x[0] == "agg" else None for x in (a, b))
            if ai is not None and bi is not None and not a[3] and not b[3]:
                return e.finish(st, ci, ("c", (ai == bi) == (op == "Eq")))
            if bi is None and ai is not None:
                a, b, ai, bi = b, a, bi, ai
            if bi is not None and not b[3]:
                r = ("isv", a, bi, len(vs))
                t = e.truth(st, r)
                if t is not None:
                    return e.finish(st, ci, ("c", t == (op == "Eq")))
                return e.finish(st, ci, r if op == "Eq" else ("un", "Not", r))
    return e.finish(st, ci, e.binop(st, op, a, b))


# ---------------------------------------------------------------------- printing
def show(t, n=0):
    """short human form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if n > 8:
        return "…"
    if not isinstance(k, str):
        return "(" + ", ".join(show(x, n + 1) for x in t) + ")"
    if k == "upd":
        return show(t[1], n + 1) + "{" + ", ".join(f"{x[0]}: {show(x[1], n + 1)}" for x in t[2] if len(x) == 2) + "}"
    s = lambda x: show(x, n + 1)
    if k == "c":
        return repr(t[1])
    if k in ("arg", "static", "fn", "const"):
        return t[1].split("::")[-1] if k != "static" else "static " + t[1].split("::")[-1]
    if k == "fld":
        return f"{s(t[1])}.{t[2]}"
    if k == "ptr":
        return f"&{s(t[1])}"
    if k == "loc":
        return f"_{t[1]}:{t[2]}" + "".join("." + x for x in t[3])
    if k == "guard":
        return f"guard({s(t[1])})"
    if k == "agg":
        nm = t[1].split("::")[-1] if not t[1].startswith("{") else "{closure}"
        if t[4]:
            return nm + "{" + ", ".join(f"{a}: {s(b)}" for a, b in zip(t[4], t[3])) + "}"
        return nm + "(" + ", ".join(s(x) for x in t[3]) + ")"
    if k == "call":
        return "::".join(t[1].split("::")[-2:]) + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if k == "op":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "un":
        return f"{t[1]}({s(t[2])})"
    if k == "isv":
        return f"{s(t[1])} is #{t[2]}"
    if k == "disc":
        return f"disc({s(t[1])})"
    if k in ("mut", "old"):
        return f"{k}({s(t[1])})"
    if k == "tls":
        return f"tls {s(t[1])}"
    return k + "(" + ", ".join(s(x) for x in t[1:]) + ")"


def show_facts(st):
    return "; ".join(f"{show(k)}={v}" for k, v in st.facts.items())
