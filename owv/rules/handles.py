"""P16: V8 handles of pooled isolates are dropped under their isolate's lock."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .pool import Acquire, run_request, outside_tests, in_pool, FEATURES

HANDLE = re.compile(r"v8::(\w+::)*(Global|Eternal|TracedReference|OwnedIsolate|UnenteredIsolate|ContextScope)\b|\bGlobal<")
LOCKS = re.compile(r"(^|::)(Locker::new|LockerManagedIsolate::lock|try_lock_v8)$")
EMPTIES = re.compile(r"(Vec|VecDeque|HashMap|BTreeMap)::(clear|retain|retain_mut|truncate|dedup\w*|drain|splice)$")
GIVES = re.compile(r"(Vec|VecDeque|HashMap|BTreeMap|Option)::(clear|drain|take|replace)$|mem::(take|replace)$")


def holders(p):
    """types of the crate that own V8 handles of a pooled isolate, by what their fields are made of"""
    out = set()
    while True:
        new = set()
        for n, d in p.defs.items():
            if n in out or n.startswith("openworkers_core") or n.startswith("v8"):
                continue
            for v in d["variants"]:
                for f in v[1]:
                    t = f[1].replace(" ", "")
                    if "*mut" in t or "*const" in t or t.startswith("&"):
                        continue
                    if HANDLE.search(t) or any(re.search(rf"\b{x.split('::')[-1]}\b", t) for x in out):
                        new.add(n)
        if not new - out:
            return out
        out |= new


class Held:
    """which locks are held, and what is dropped while none is"""

    def __init__(self, p, names, inline, selfless=()):
        self.p, self.names, self.inl, self.selfless = p, names, inline, set(selfless)
        self.rx = re.compile(r"\b(" + "|".join(sorted({n.split("::")[-1] for n in names})) + r")\b") if names else None
        self.bad, self.seen = {}, 0

    def inline(self, b):
        return self.inl(b)

    def keep_fact(self, f):
        return isinstance(f, tuple) and ("is_null" in str(f)[:3000] or f[0] == "disc" and ("acquire" in str(f)[:600] or "try_lock" in str(f)[:600] or "value" in str(f)[:600]))

    def owns(self, ty):
        t = ty
        for n in self.selfless:
            while True:
                i = re.search(rf"\b{n}\b", t)
                if not i:
                    break
                j = i.end()
                if t[j:j + 1] == "<":
                    d = 0
                    while j < len(t):
                        d += {"<": 1, ">": -1}.get(t[j], 0)
                        j += 1
                        if not d:
                            break
                t = t[:i.start()] + t[j:]
        return bool(re.fullmatch(r"[A-Z]", t)) or not t.startswith("&") and bool(self.rx.search(t)) and not re.match(r"\{|fn|for<|\*|std::sync::(Arc|MutexGuard)|(std::sync::)?Arc<|.*MutexGuard<|.*(Ref|RefMut)<", t)

    def held(self, st):
        return st.data.get("held", 0)

    def absent(self, st):
        """the path knows there is no pooled isolate"""
        return any("is_null" in str(f)[:3000] and v in (1, True) for f, v in st.facts.items())

    def event(self, e, st, k, n, a, r):
        if k == "store" and isinstance(n, tuple) and a and (re.search(r"(^|[:'])None'", str(e.strip(st, a[0])[1:2])) or re.search(r"(^|::)(default|new|None)\(", flow.show(e.strip(st, a[0])))):
            e.emit(st, ("gives", "take"), 2)
        if k != "call":
            return
        if LOCKS.search(n):
            if not self.inl_name(n):
                st.data = dict(st.data, held=self.held(st) + 1)
        elif n.endswith("mem::drop"):
            v = e.strip(st, a[0])
            if self.value(e, v):
                self.dropped(e, st, "the value it drops", v)
        elif EMPTIES.search(n) and "cached" in str(a[0])[-600:]:
            self.dropped(e, st, "the cached contexts", a[0])
        if GIVES.search(n):
            e.emit(st, ("gives", n), 2)
        if n.endswith("process_all"):
            e.emit(st, ("queue", self.held(st) > 0), 1)

    def inl_name(self, n):
        b = self.p.by_pretty.get(n) or next((x for x in self.p.by_pretty.values() if x.pretty.endswith("::" + n)), None)
        return b is not None and self.inl(b)

    def value(self, e, v):
        """a term that stands for a value with handles: everything that is given to a drop but guards, locks and waiters"""
        return v[:1] != ("guard",) and not (v[:1] == ("call",) and re.search(r"Locker|lock$|Mutex|await$", v[1]))

    def dropped(self, e, st, what, v):
        self.seen += 1
        if not self.held(st) and not self.absent(st):
            self.bad.setdefault(f"{st.top.body.pretty}", f"{what} ({flow.show(v)[:80]}) goes away without the isolate's lock (line {st.line})")

    def on_drop(self, e, st, ty, val, path):
        if re.search(r"\bLocker\b", ty) and "Option" not in ty and not ty.startswith("&"):
            st.data = dict(st.data, held=max(0, self.held(st) - 1))
        elif self.owns(ty) and not self.nothing(e, st, ty, val) and not self.opens(ty):
            self.dropped(e, st, f"a value of type {re.sub(r'[a-z_0-9]+::', '', ty)[:60]}", val)

    def opens(self, ty):
        """its own Drop is followed instead"""
        h = mir.type_head(ty)
        return self.p and h.split("::")[-1] in self.selfless

    def nothing(self, e, st, ty, val):
        if val[:1] == ("agg",) and (val[1].endswith("::None") or val[1].endswith("::Err")):
            return True
        if re.search(r"Option<", ty.split("<")[0] + "<") and st.facts.get(("disc", val)) == 0:
            return True
        return re.search(r"Result<", ty.split("<")[0] + "<") is not None and st.facts.get(("disc", val)) == 1


def self_locking(ctx, p, names, inl):
    """types whose own Drop gives up what they hold under the lock"""
    out = []
    for b in sorted(p.bodies.values(), key=lambda b: b.pretty):
        m = re.search(r"<([\w:]+)(?:<.*>)? as (?:std::ops::)?Drop>::drop$", b.pretty)
        if not m or not outside_tests(b) or m.group(1).split("::")[-1] in ("JsLock", "DeferredHandle"):
            continue
        n = m.group(1)
        d = next((d for k, d in p.defs.items() if k.split("::")[-1] == n.split("::")[-1]), None)
        if d is None:
            continue
        ts = [f[1].replace(" ", "") for v in d["variants"] for f in v[1]]
        gen = any(re.fullmatch(r"(Option<|std::option::Option<|ManuallyDrop<)?[A-Z]>?", t) for t in ts)
        rx = re.compile(r"\b(" + "|".join(sorted({x.split("::")[-1] for x in names})) + r")\b")
        if not (gen or any(rx.search(t) or HANDLE.search(t) for t in ts if "*mut" not in t)) or "Locker" not in b.text and not gen:
            continue
        R = Held(p, names, inl)
        e = ctx.paths(p, b, R)
        gives = all(any(x[0] == "gives" for x in st.trace) or any("try_lock" in str(f)[:2000] and v == 1 or isinstance(f, tuple) and f[0] == "disc" and v == 0 and f[1][:1] == ("fld",) and f[1][1] == ("arg", "self") for f, v in st.facts.items()) for k, st, r in e.exits if k == "return")
        out.append((n, b, R, e, gives))
    return out


@check("P16", "typestate over MIR of the pooled request path, the pool's own Drop implementations and what they call: isolate lock held at each drop of a value that owns V8 handles, cancellation at every await included",
       "handles inside a context that stays alive are dropped by code that runs script, which holds the lock to do so; what the async functions of a context keep across their own awaits, and panics, are not judged", level="other")
def p16(ctx):
    """The types that own V8 handles are found from what their fields are made of.  The request path of the pool is followed to every return, error and cancellation at an await point: whenever a context, a
    cached context or the parts of one are dropped - by going out of scope, explicitly, by being removed or replaced in the cache - a lock of the isolate taken on the path is still held, or the value sits in
    a type whose own Drop takes the lock.  Those types are followed too: the lock is held when the value goes, and what they hold is given up before their fields are.  A pooled isolate that goes away
    empties its cache and its queue of deferred destructions under the lock."""
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        tag = "+".join(feats) or "default"
        names = {n for n in holders(p) if re.search(r"Context", n.split("::")[-1]) or "Isolate" in n}
        ctx.floor(f"types that own V8 handles ({tag})", len(names), 3)
        inl = lambda b: in_pool(b) and "acquire" not in b.pretty and "release" not in b.pretty and "execute_pinned" not in b.pretty
        own = self_locking(ctx, p, names, inl)
        good = []
        pooled = 0
        for n, b, R, e, gives in own:
            last = n.split("::")[-1]
            for k, m in R.bad.items():
                ctx.require(False, "drop-locks", b.pretty, f"{b.pretty}: {m}", b.pretty)
            ctx.require(gives, "gives-up", b.pretty, f"{b.pretty} leaves what it holds to be dropped after the lock is released", b.pretty)
            if not R.bad and gives:
                good.append(last)
            if last == "TaggedIsolate" or "Isolate" in last and "Locker" in b.text:
                pooled += 1
                for k, st, r in e.exits:
                    if k == "return":
                        ctx.require(("queue", True) in st.trace, "queue-emptied", b.pretty, f"{b.pretty} does not carry out the deferred destructions under the lock before the isolate goes", b.pretty)
            ctx.sample(f"{b.pretty}: {R.seen} drops, all under the lock" if not R.bad else b.pretty)
        ctx.floor(f"pooled isolate types that empty themselves ({tag})", pooled, 1)
        a = Acquire(ctx, p)
        R = Held(p, names, inl, [x for x in good])
        R.names = names
        e = run_request(ctx, p, a, R, cancel=True)
        for k, m in sorted(R.bad.items()):
            ctx.require(False, "dropped-locked", k, f"{m}, on the path of {a.body.pretty}", k)
        kinds = {}
        for k, st, r in e.exits:
            kinds[k] = kinds.get(k, 0) + 1
        ctx.floor(f"drops of values with handles on the request path ({tag})", R.seen, 4)
        ctx.note(f"{tag}: ends of the request path " + ", ".join(f"{k} {v}" for k, v in sorted(kinds.items()))) if hasattr(ctx, "note") else None
