"""P42: mutexes and interior borrows are not held across a wait, a call into script, or another acquisition of the same lock."""
import re
from .. import mir
from ..check import check, Missing
from .pool import outside_tests, FEATURES
from .runs import Graph, successors

GUARD = re.compile(r"(?:std::sync::|sync::(?:poison::)?(?:mutex::|rwlock::)?|parking_lot::|lock_api::)?\b(MutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedMutexGuard|ReentrantMutexGuard)<"
                   r"|cell::(Ref|RefMut)<")
FOREIGN = re.compile(r"tokio::sync::\w*Guard<|v8::\w*Guard<")
BLOCKS = re.compile(r"(^|::)(thread::sleep|thread::park\w*|thread::yield_now|blocking_(recv|send|lock|read|write)\w*|block_on|block_in_place|recv_timeout)$"
                    r"|JoinHandle::join$|mpsc::\w*Receiver::recv$|mpsc::Receiver::recv$|Barrier::wait$|crossbeam\w*::.*::recv$|v8::.*Locker\w*::new$|Locker\w*::lock$|LockerManagedIsolate::lock$")
SCRIPT = re.compile(r"v8::.*::(call|new_instance|run|evaluate|instantiate_module|perform_microtask_checkpoint|perform_checkpoint|to_string|to_detail_string|to_rust_string_lossy|to_object|to_number|to_numeric|to_integer|to_int32|to_uint32|to_big_int|"
                    r"integer_value|number_value|int32_value|uint32_value|resolve|reject|get_own_property_names|get_property_names|instance_of|stringify|parse|strict_equals_never|define_own_property|define_property)$"
                    r"|v8::.*Object>?::(get|set|delete|has|get_index|set_index|get_real_named_property)$|v8::object::(get|set|delete|has|get_index|set_index)$")
PLAIN = re.compile(r"v8::(.*::)?(String|string|primitives)\b.*::to_rust_string_lossy$")
OUT = re.compile(r"task::(wake::)?(Local)?Waker::(wake|wake_by_ref)$|<dyn .*Fn(Once|Mut)?\b|as std::ops::Fn(Once|Mut)?<.*>::call(_once|_mut)?$")
TRY = re.compile(r"::try_(lock|borrow|borrow_mut|read|write)$")
SHARED = re.compile(r"cell::Ref<|RwLockReadGuard<")


def holds(ty):
    """whether a value of this type owns a guard"""
    t = str(ty)
    if t.startswith("&") or t.startswith("*"):
        return False
    t = FOREIGN.sub("<", t)
    m = GUARD.search(t)
    return bool(m) and not re.search(r"^(std::pin::)?Pin<&|^std::option::Option<&|^\{|^for<|^fn\(|PhantomData", t)


def inner(ty):
    """the type a guard gives access to"""
    t = FOREIGN.sub("<", str(ty))
    m = GUARD.search(t)
    d, out = 0, ""
    for c in t[m.end():]:
        d += c == "<"
        if c == ">" and d == 0:
            break
        d -= c == ">"
        out += c
    return re.sub(r"^'\w+, ", "", out)


def operands(rv):
    """the operands of an rvalue"""
    if isinstance(rv, (tuple, list)):
        if len(rv) == 2 and rv[0] in ("move", "copy") and isinstance(rv[1], tuple):
            yield rv
            return
        for x in rv:
            yield from operands(x)


class Locks:
    def __init__(self, ctx, p, crate):
        self.p, self.crate = p, crate
        self.g = Graph(p)
        self.bodies = [b for b in p.bodies.values() if outside_tests(b)]
        self.holders = set()
        self.direct, self.drops = {}, {}
        for b in self.bodies:
            b.parse()
        for _ in range(2):
            for b in self.bodies:
                self.scan(b)
        self.summaries()

    # ---- what is a guard, and of which lock
    def owns(self, ty):
        t = str(ty)
        return holds(t) or not t.startswith(("&", "*")) and any(re.search(r"(^|[<( ])" + re.escape(h) + r"($|[<>,) ])", t) for h in self.holders)

    def scan(self, b):
        """types of the crate that own a guard in a field"""
        for k in b.blocks:
            for s in b.block(k)[0]:
                if s[0] != "assign" or not any(o[0] == "move" and not o[1][1] and self.owns(b.locals.get(o[1][0], "")) for o in operands(s[2])):
                    continue
                t = str(b.locals.get(s[1][0], ""))
                m = re.match(r"([\w:]+)", t)
                if not s[1][1] and m and m.group(1).split("::")[0] in self.crate and not self.owns(t):
                    self.holders.add(m.group(1))

    def origin(self, b, op):
        """the lock a guard is obtained from: field of its owner, static, or (unknown) the type it protects"""
        defs = self.defs(b)
        seen = set()
        while op and op[0] in ("move", "copy"):
            loc, proj = op[1]
            fs = [(i, x) for i, x in enumerate(proj) if x[0] == "f"]
            if fs:
                i, x = fs[-1]
                owner = fs[-2][1][2] if len(fs) > 1 else str(b.locals.get(loc, ""))
                owner = re.sub(r"<.*", "", re.sub(r"^(&('\w+ )?(mut )?|std::pin::Pin<|\*\w+ )+", "", owner))
                if owner.split("::")[0] in self.crate and "{" not in owner:
                    return ("field", owner, x[1])
                return None
            if loc in seen or loc not in defs or len(defs[loc]) != 1:
                return None
            seen.add(loc)
            d = defs[loc][0]
            if d[0] == "const":
                return ("static", d[1])
            op = d
        if op and op[0] == "const":
            m = re.search(r"[A-Z][A-Z0-9_]{2,}", str(op[1]))
            return ("static", m.group(0)) if m else None
        return None

    def defs(self, b):
        got = getattr(b, "_lockdefs", None)
        if got is not None:
            return got
        got = {}
        for k in b.blocks:
            ss, t = b.block(k)
            for s in ss:
                if s[0] == "assign" and not s[1][1]:
                    rv = s[2]
                    if rv[0] == "ref":
                        d = ("copy", rv[2])
                    elif rv[0] == "use":
                        d = rv[1]
                    elif rv[0] == "cast":
                        d = next(operands(rv), None)
                    else:
                        d = None
                    got.setdefault(s[1][0], []).append(d or ("?",))
            if t[0] == "call":
                n = mir.strip_generics(t[2])
                d = t[3][0] if t[3] and re.search(r"::(deref|deref_mut|as_ref|borrow|clone|force|get_or_init|as_mut|unwrap|expect)$", n) and not (t[1] and self.owns(b.locals.get(t[1][0], ""))) else ("?",)
                if t[1] and not t[1][1]:
                    got.setdefault(t[1][0], []).append(d)
        b._lockdefs = got
        return got

    def acquired(self, b, t):
        """(lock, shared) if this call hands out a fresh guard"""
        if t[0] != "call" or not t[1]:
            return None
        ty = b.locals.get(t[1][0], "")
        if t[1][1] or not self.owns(ty) or any(o[0] == "move" and self.owns(b.locals.get(o[1][0], "")) for o in t[3] if o[0] in ("move", "copy")):
            return None
        m = mir.strip_generics(t[2])
        if m in self.p.by_pretty and not holds(ty):
            inn = "?"
        else:
            inn = inner(ty) if holds(ty) else str(ty)
        lock = self.origin(b, t[3][0]) if t[3] else None
        if lock is None:
            lock = ("type", inn) if any(re.search(r"\b" + c + "::", inn) for c in self.crate) else ("here", b.pretty, str(t[3][:1]))
        return lock, bool(SHARED.search(str(ty)))

    # ---- what a call may do
    def summaries(self):
        self.acq, edges = {}, {}
        for b in self.bodies:
            mine = set()
            out = set()
            for k in b.blocks:
                t = b.block(k)[1]
                a = self.acquired(b, t)
                if a and a[0][0] != "here" and not TRY.search(mir.strip_generics(t[2])):
                    mine.add(a)
                if t[0] == "call":
                    out |= set(self.callees(b, t))
                if t[0] == "drop":
                    out |= set(self.dropped(b, t))
            self.acq[b.pretty], edges[b.pretty] = mine, out
        self.script, self.dyn = set(), set()
        for b in self.bodies:
            for k in b.blocks:
                t = b.block(k)[1]
                if t[0] == "call":
                    n = mir.strip_generics(t[2])
                    if SCRIPT.search(n) and not PLAIN.search(n):
                        self.script.add(b.pretty)
                    if OUT.search(n) and "{closure@" not in t[2]:
                        self.dyn.add(b.pretty)
        self.blocking = {}
        for b in self.bodies:
            for k in b.blocks:
                t = b.block(k)[1]
                if t[0] == "call" and BLOCKS.search(mir.strip_generics(t[2])):
                    self.blocking.setdefault(b.pretty, mir.strip_generics(t[2]))
        changed = True
        while changed:
            changed = False
            for b in self.bodies:
                for c in edges[b.pretty]:
                    more = self.acq.get(c, set()) - self.acq[b.pretty]
                    if more:
                        self.acq[b.pretty] |= more
                        changed = True
                    for grow in (self.script, self.dyn):
                        if c in grow and b.pretty not in grow:
                            grow.add(b.pretty)
                            changed = True
                    if c in self.blocking and b.pretty not in self.blocking:
                        self.blocking[b.pretty] = c
                        changed = True

    def callees(self, b, t):
        n = t[2]
        yield from (c for c in self.g.targets(n, mir.strip_generics(n)) if not self.is_async(c))
        if re.search(r"spawn|Box::.*::new$|Arc::.*::new$|Rc::.*::new$|push|insert|FunctionTemplate|Function::builder", n):
            return
        for o in t[3]:
            if o[0] in ("move", "copy") and not o[1][1]:
                m = re.search(r"\{closure@(\S+?): ", str(b.locals.get(o[1][0], "")))
                if m:
                    yield from self.closures().get(m.group(1), ())

    def is_async(self, name):
        b = self.p.by_pretty.get(name)
        return b is not None and bool(re.search(r"coroutine|async (fn|block)|impl .*Future", str(b.locals.get(0, ""))))

    def closures(self):
        got = getattr(self, "_cl", None)
        if got is None:
            got = self._cl = {}
            for b in self.bodies:
                m = re.search(r"\{closure@(\S+?): ", str(b.locals.get(1, "")))
                if m:
                    got.setdefault(m.group(1), []).append(b.pretty)
        return got

    def dropped(self, b, t):
        """Drop implementations of the crate that dropping this place runs"""
        place = t[1]
        ty = place[1][-1][2] if place[1] and place[1][-1][0] == "f" else b.locals.get(place[0], "")
        ty = str(ty)
        if ty.startswith(("&", "*")):
            return
        for n in self.p.by_pretty:
            m = re.match(r".*<(?:.*::)?(\w+)(?:<.*>)? as (?:\w+::)*Drop>::drop$", n)
            if m and re.search(r"\b" + m.group(1) + r"\b", ty):
                yield n

    # ---- the analysis: which guards may be held where
    def held(self, b):
        first = min(b.blocks)
        at, todo = {first: frozenset()}, [first]
        while todo:
            k = todo.pop()
            ss, t = b.block(k)
            st = set(at[k])
            for s in ss:
                st = self.stmt(b, s, st)
            out = self.term(b, t, st)
            for n in successors(b.blocks[k][1][0]):
                if n not in b.blocks:
                    continue
                new = at.get(n, frozenset()) | out
                if n not in at or new != at[n]:
                    at[n] = new
                    todo.append(n)
        return at

    def stmt(self, b, s, st):
        if s[0] == "dead":
            return {x for x in st if x[0] != s[1]}
        if s[0] != "assign":
            return st
        moved = {o[1][0] for o in operands(s[2]) if o[0] == "move"}
        gone = {x for x in st if x[0] in moved}
        if gone:
            st = st - gone
            st |= {(s[1][0],) + x[1:] for x in gone}
        return st

    def term(self, b, t, st):
        if t[0] == "drop":
            return frozenset(x for x in st if x[0] != t[1][0] or t[1][1] and not self.owns(str(t[1][1][-1][2:3])))
        if t[0] == "call":
            moved = {o[1][0] for o in t[3] if o[0] == "move"}
            gone = {x for x in st if x[0] in moved}
            st = set(st) - gone
            if t[1]:
                if gone and self.owns(b.locals.get(t[1][0], "")):
                    st |= {(t[1][0],) + x[1:] for x in gone}
                a = self.acquired(b, t)
                if a:
                    st.add((t[1][0], a[0], a[1], t[-1], "cell::Ref" in str(b.locals.get(t[1][0], ""))))
        return frozenset(st)


def show(lock):
    return {"field": lambda l: f"the lock in field {l[2]} of {l[1]}", "static": lambda l: f"the lock {l[1]}",
            "type": lambda l: f"the lock around {l[1][:60]}", "here": lambda l: "a lock or interior borrow"}[lock[0]](lock)


@check("P42", "dataflow over the compiler's intermediate representation: maybe-held guards at suspension points, call-outs and acquisitions, with interprocedural lock summaries and a lock order graph",
       "locks behind raw pointers and asynchronous (tokio) mutexes are not judged; V8's own isolate lock is covered by P27", level="other")
def p42(ctx):
    """For every body of the crate (both feature sets) a forward dataflow computes which mutex guards and RefCell borrows may be alive
    at each program point: a guard is born at the call that returns it, follows moves through wrappers (Result, Option, struct fields),
    and dies when it is dropped, moved into a call or its storage ends.  Reported: a guard that may be alive at a suspension point of an
    async body, a mutex guard at a blocking call, a guard at a call that can run script (function calls, property access, conversions), at a call that hands control to unknown code (a waker, a boxed callback), or at a call that acquires (itself, or through any function it
    calls or destructor it runs) the same lock; and two locks that are acquired in both orders."""
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        crate = {n.split("::")[0] for n in p.by_pretty if "::" in n and not n.startswith("<")} - {"std", "core", "alloc", "tokio", "v8"}
        L = Locks(ctx, p, crate)
        order, nyield, nacq, ncalls, seen = {}, 0, 0, 0, set()

        def bad(key, msg, line):
            seen.add((key, msg, f"{line[0]}:{line[1]}" if isinstance(line, tuple) else str(line)))

        for b in L.bodies:
            at = L.held(b)
            for k in at:
                ss, t = b.block(k)
                st = set(at[k])
                for s in ss:
                    st = L.stmt(b, s, st)
                if t[0] == "yield":
                    nyield += 1
                    for x in st:
                        bad(f"await:{b.pretty}", f"{b.pretty} suspends (line {t[-1][1]}) while it may hold {show(x[1])} (taken at line {x[3][1]})", t[-1])
                    continue
                a = L.acquired(b, t)
                nacq += bool(a)
                if not st or t[0] not in ("call", "drop"):
                    continue
                if t[0] == "call":
                    ncalls += 1
                    n = mir.strip_generics(t[2])
                    moved = {o[1][0] for o in t[3] if o[0] == "move"}
                    rest = {x for x in st if x[0] not in moved}
                    cs = set(L.callees(b, t))
                    script = SCRIPT.search(n) and not PLAIN.search(n) or any(c in L.script for c in cs)
                    dyn = OUT.search(n) and "{closure@" not in t[2] or next((c for c in cs if c in L.dyn), None)
                    block = BLOCKS.search(n) and n or next((c for c in cs if c in L.blocking), None)
                    got = {a} if a and not TRY.search(n) else set()
                else:
                    rest = {x for x in st if x[0] != t[1][0]}
                    if not rest:
                        continue
                    n, cs, block, got, dyn = "a destructor", set(L.dropped(b, t)), None, set(), None
                    script = any(c in L.script for c in cs)
                for c in cs:
                    got |= L.acq.get(c, set())
                for x in rest:
                    if script:
                        bad(f"script:{b.pretty}", f"{b.pretty} calls {n}, which can run script, while it may hold {show(x[1])} (taken at line {x[3][1]})", t[-1])
                    if dyn:
                        bad(f"out:{b.pretty}", f"{b.pretty} hands control to code it does not know ({n}) while it may hold {show(x[1])} (taken at line {x[3][1]})", t[-1])
                    if block and not x[4]:
                        bad(f"block:{b.pretty}", f"{b.pretty} blocks in {block} while it may hold {show(x[1])} (taken at line {x[3][1]})", t[-1])
                    for lock, shared in got:
                        if lock == x[1]:
                            if not (shared and x[2]):
                                bad(f"again:{b.pretty}", f"{b.pretty} acquires {show(lock)} through {n} while it may already hold it (taken at line {x[3][1]})", t[-1])
                        elif lock[0] != "here" and x[1][0] != "here":
                            order.setdefault((x[1], lock), (b.pretty, t[-1]))
        reach = {}
        for x, y in order:
            reach.setdefault(x, set()).add(y)
        for (x, y), (where, line) in order.items():
            todo, got = [y], set()
            while todo:
                z = todo.pop()
                for w in reach.get(z, ()):
                    if w not in got:
                        got.add(w)
                        todo.append(w)
            if x in got:
                bad(f"order:{where}", f"{where} acquires {show(y)} while it holds {show(x)}, elsewhere they are taken in the opposite order", line)
        for key, msg, line in sorted(seen):
            ctx.require(False, key.split(":")[0], key, msg, line)
        good = {"await": nyield, "script": ncalls, "block": ncalls, "out": ncalls, "again": ncalls, "order": len(order)}
        for rule, n in good.items():
            o = ctx.obligations.setdefault(rule, [0, 0])
            n = max(0, n - sum(1 for x in seen if x[0].startswith(rule + ":")))
            o[0] += n
            o[1] += n
        ctx.functions |= {b.pretty for b in L.bodies}
        tag = "+".join(feats) or "default"
        ctx.floor(f"bodies analysed ({tag})", len(L.bodies), 300)
        ctx.floor(f"suspension points ({tag})", nyield, 40)
        ctx.floor(f"acquisitions ({tag})", nacq, 40)
        ctx.counts[f"calls made while a guard may be held ({tag})"] = ncalls
        ctx.counts[f"ordered lock pairs ({tag})"] = len(order)
        for (x, y), (where, line) in list(order.items())[:5]:
            ctx.sample(f"{where}: {show(x)} before {show(y)}")
