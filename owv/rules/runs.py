"""P06, P07: the limits around a run and the reason reported for it."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .pool import calls_of, outside_tests, last, strip_await

CALLS_JS = re.compile(r"v8::(function::call|Function::call|function::Function::call\w*|isolate::perform_microtask_checkpoint|microtask\w*::perform_checkpoint|\w+::perform_microtask_checkpoint)$|PerformCheckpoint")
EVALS = re.compile(r"v8::(script::run|Script::run|module::evaluate|script::\w*::run)$")
WALL = re.compile(r"TimeoutGuard::new$")
CPU = re.compile(r"CpuEnforcer::new$")


def name_of(t):
    return mir.strip_generics(t[2])


class Graph:
    """which bodies can reach calls into tenant code"""

    def __init__(self, p):
        self.p = p
        self.js, self.ev, self.out = set(), set(), {}
        for b in p.bodies.values():
            if not outside_tests(b):
                continue
            outs = set()
            for k, t in calls_of(b):
                n = t[2]
                s = mir.strip_generics(n)
                if re.search(r"v8::.*::call$", s) and "unction" in n or "perform_microtask_checkpoint" in s or "perform_checkpoint" in s:
                    self.js.add(b.pretty)
                if re.search(r"v8::.*::(run|evaluate)$", s) and re.search("cript|odule", n):
                    self.ev.add(b.pretty)
                for c in self.targets(n, s):
                    outs.add(c)
            self.out[b.pretty] = outs
        for b in list(self.out):
            for c in self.out:
                if c.startswith(b + "::{closure"):
                    self.out[b].add(c)
        self.js, self.ev = self.close(self.js), self.close(self.ev)

    def targets(self, full, s):
        p = self.p
        if s in p.by_pretty:
            yield s
        m = re.match(r"<(.*) as ([\w:]+)(?:<.*>)?>::(\w+)$", s)
        if m:
            ty = m.group(1).split("<")[0].split("::")[-1].lstrip("&")
            for n in p.by_pretty:
                if n.endswith(f"<{ty} as {m.group(2).split('::')[-1]}>::{m.group(3)}"):
                    yield n

    def close(self, seed):
        seen, changed = set(seed), True
        while changed:
            changed = False
            for b, o in self.out.items():
                if b not in seen and o & seen:
                    seen.add(b)
                    changed = True
        return seen


def guarded_args(b):
    return any("TimeoutGuard" in str(t) for t in b.arg_types.values())


def entries(ctx, p, g):
    """async bodies that call into tenant code (not to load the script) and hold no guard given by a caller"""
    out = []
    for b in p.bodies.values():
        if b.pretty not in g.js or not b.pretty.endswith("::{closure#0}") or not outside_tests(b):
            continue
        outer = p.by_pretty.get(b.pretty[:-len("::{closure#0}")])
        if outer is None:
            continue
        outer.parse()
        b.parse()
        if "async" not in b.text[:400] and not any("Context" in str(t) or "ResumeTy" in str(t) for t in b.locals.values()):
            continue
        if not re.search(r"coroutine|async", str(outer.locals.get(0, "")) + b.text[:200]):
            continue
        if guarded_args(outer):
            continue
        out.append((outer, b))
    return out


FLAGS = {"memory_limit_hit": "memory", "aborted": "abort"}


class Runs:
    """the async entry points that run tenant code, path by path"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = p = ctx.prog("full", ())
        self.skip = [n for n in p.unanalysed if re.search(r"execution_context|worker", str(n))]
        self.g = g = Graph(p)
        self.entries = entries(ctx, p, g)
        self.names = {o.pretty for o, _ in self.entries}
        for o, _ in list(self.entries):        # a trait method that forwards to an entry
            for n, outs in g.out.items():
                if o.pretty in outs and n not in g.ev and n.endswith("::{closure#0}") is False and False:
                    self.names.add(n)

    def tenant(self, n):
        """a call that may run tenant code other than loading the script or another entry point's own run"""
        g = self.g
        return n in g.js and n not in g.ev and n not in self.names

    def explore(self, b):
        g = self.g

        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            if WALL.search(n):
                return ("wall", a, r)
            if CPU.search(n):
                return ("cpu", a, r)
            if re.search(r"(^|::)mem::drop$|(^|::)mem::forget$", n):
                return ("gone", a[0])
            if re.search(r"CpuEnforcer::was_terminated$|TimeoutGuard::was_triggered$", n):
                return ("asked", "cpu" if "Cpu" in n else "wall")
            if atomic(n) == "load" and place_of(a[0])[-1] in FLAGS:
                return ("asked", FLAGS[place_of(a[0])[-1]])
            if n == "await":
                return ("await", strip_await(a[0]))
            if self.tenant(n) or self.tenant(b.pretty.split("::")[0] + "::" + n):
                return ("run", n, a, r)
            if re.search(r"v8::.*::call$", n) and "unction" in n or "perform_microtask_checkpoint" in n:
                return ("run", n, (), r)
            return None

        def drops(e, st, ty, v, path):
            if re.search(r"TimeoutGuard|CpuEnforcer", str(ty)) and not str(ty).startswith("&"):
                return ("gone", v)
            return None

        def keep(f):
            return flow.mentions(f, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and re.search(r"was_t\w+$|::load$|CpuEnforcer::new$|is_ok$|is_err$", t[1])) or f[0] == "disc" and f[1][0] in ("call", "fld") and "trigger_" in str(f)[:400]
        inl = lambda x: x.pretty not in g.js and outside_tests(x) and re.match(r"(worker|execution_context|execution_helpers|event_loop)::", x.pretty) and (re.search(r"TerminationReason|TimeoutGuard|CpuEnforcer", ret(x)) or "{closure" in x.pretty)
        try:
            return self.ctx.paths(self.p, b, Rec(want, keep=keep, drops=drops, limit=2, inline=lambda x: bool(inl(x))), max_states=20000)
        except Missing as m:
            if "budget" not in m.key:
                raise
            return None


def ret(x):
    x.parse()
    return str(x.locals.get(0, ""))


def mine(t, field):
    """the limit is the named field of this script's limits"""
    t = place_of(t)
    return t[0] == "fld" and t[2] == field and re.search(r"limits", flow.show(t[1])) is not None


@check("P06", "must-hold dataflow over MIR of every async entry point: both guards built and alive at each call that can run tenant code",
       "The calls that can run tenant code are found through the call graph; loading the script's top level is not an event and is not covered; that the guards themselves work is P04 and P05.")
def p06(ctx):
    """The call graph gives every async entry point from which tenant functions or microtasks run.  On every path of each of them a
    wall-clock guard built from the script's own wall-clock limit and a CPU guard built from its own CPU limit exist before the first
    such call, both made for the isolate that runs, and neither is dropped before the last such call has been awaited."""
    R = Runs(ctx)
    if R.skip:
        ctx.note(f"not judged: {R.skip}")
        return
    n = 0
    for outer, b in R.entries:
        e = R.explore(b) if len(b.blocks) < 400 or "isolate::{" not in b.pretty else None
        if e is None:
            n += dominated(ctx, R, outer, b)
            continue
        for k, st, r in e.exits:
            wall = cpu = None
            gone, runs = [], []
            for ev in st.trace:
                w = f"{b.pretty}: {[x[0] if x[0] != 'run' else last(x[1]) for x in st.trace]}"
                if ev[0] == "wall":
                    wall = ev
                    ctx.require(mine(ev[1][1], "max_wall_clock_time_ms"), "own-limit", outer.pretty + ":wall", f"the wall-clock guard is built from {flow.show(ev[1][1])[:80]}, not from the script's wall-clock limit", w)
                    ctx.require("thread_safe_handle" in flow.show(ev[1][0])[:400] or "handle" in flow.show(ev[1][0]), "own-isolate", outer.pretty + ":wall", "the wall-clock guard is not made for the isolate that runs", w)
                elif ev[0] == "cpu":
                    cpu = ev
                    ctx.require(mine(ev[1][1], "max_cpu_time_ms"), "own-limit", outer.pretty + ":cpu", f"the CPU guard is built from {flow.show(ev[1][1])[:80]}, not from the script's CPU limit", w)
                elif ev[0] == "gone":
                    gone.append(ev[1])
                elif ev[0] == "run" or ev[0] == "await" and any(x[3] == ev[1] for x in runs):
                    if ev[0] == "run":
                        runs.append(ev)
                    n += 1
                    what = last(ev[1]) if ev[0] == "run" else "await"
                    for nm, gd in (("wall-clock", wall), ("CPU", cpu)):
                        ctx.require(gd is not None, "guarded", f"{outer.pretty}:{nm}", f"{outer.pretty} runs tenant code ({what}) without a {nm} guard", w)
                        if gd is not None:
                            ctx.require(not any(has(x, gd[2]) or x == gd[2] for x in gone), "alive", f"{outer.pretty}:{nm}", f"the {nm} guard of {outer.pretty} is gone when tenant code runs ({what})", w)
    ctx.floor("guarded calls into tenant code on the paths of the entry points", n, 6)


def successors(raw):
    """blocks a terminator leads to, unwinding aside"""
    return [int(x[2:]) for x in re.findall(r"\bbb\d+\b", re.sub(r"unwind:? bb\d+", "", raw))]


def dominated(ctx, R, outer, b):
    """the same obligation for a body with too many branches: each guard is built on every way to each tenant call, and is not given
    up on any way from there to it"""
    b.parse()
    calls = {k: t for k, t in calls_of(b)}
    made = {"wall-clock": [k for k, t in calls.items() if WALL.search(name_of(t))], "CPU": [k for k, t in calls.items() if CPU.search(name_of(t))]}
    runs = [k for k, t in calls.items() if R.tenant(name_of(t)) or re.search(r"v8::.*::call$", name_of(t)) and "unction" in t[2] or "perform_microtask_checkpoint" in t[2]]
    ty = {"wall-clock": "TimeoutGuard", "CPU": "CpuEnforcer"}

    def reach(starts, avoid):
        seen, todo = set(), list(starts)
        while todo:
            k = todo.pop()
            if k in seen or k in avoid or k not in b.blocks:
                continue
            seen.add(k)
            todo += succ[k]
        return seen
    succ = {k: successors(b.blocks[k][1][0]) for k in b.blocks}
    for nm, blocks in made.items():
        free = reach([0], set(blocks))
        ends = []
        for k in b.blocks:
            t = b.block(k)[1]
            if t[0] == "drop" and ty[nm] in str(b.locals.get(t[1][0], "")) or t[0] == "call" and re.search(r"mem::(drop|forget)$", name_of(t)) and ty[nm] in t[2]:
                ends += succ[k]
        after = reach(ends, set(blocks))
        for k in runs:
            w = where(b, calls[k][6])
            what = last(name_of(calls[k]))
            ctx.require(k not in free, "guarded", f"{outer.pretty}:{nm}", f"{outer.pretty} runs tenant code ({what}) without a {nm} guard", w)
            ctx.require(k not in after, "alive", f"{outer.pretty}:{nm}", f"the {nm} guard of {outer.pretty} is gone when tenant code runs ({what})", w)
    ctx.functions.add(b.pretty)
    return len(runs)


def guard_says(st, rx, of=None):
    """True / False / None: what the path knows about a guard's verdict"""
    val = None
    for f, v in st.facts.items():       # in the order in which the path learnt them
        if isinstance(f, tuple) and f and f[0] == "call" and re.search(rx, f[1]) and isinstance(v, bool):
            val = v
    return val


def flag_says(st, field):
    val = None
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f and f[0] == "call" and atomic(f[1]) == "load" and isinstance(v, bool) and place_of(f[2][0])[-1] == field:
            val = v
    return val


ORDER = (("CpuTimeLimit", "cpu"), ("WallClockTimeout", "wall"), ("MemoryLimit", "memory"), ("Aborted", "abort"))


@check("P07", "path enumeration over MIR: facts known at every result an entry point returns after running tenant code",
       "Decides the classification for every combination of guard verdicts, flags and script outcome; when a guard fires between the last look at it and the return, the run counts as ended before it.")
def p07(ctx):
    """Every path of each async entry point that runs tenant code is followed to the value it returns.  Success is returned only where
    the path knows that neither guard fired, that the memory flag and the abort flag (where the entry point has them) are down and
    that the script's own run returned Ok; each limit is reported exactly where its own guard or flag is known to have fired and every
    more specific one is known not to have."""
    R = Runs(ctx)
    if R.skip:
        ctx.note(f"not judged: {R.skip}")
        return
    n = 0
    for outer, b in R.entries:
        e = R.explore(b) if len(b.blocks) < 400 or "isolate::{" not in b.pretty else None
        if e is None:
            ctx.note(f"{outer.pretty} branches too often to be enumerated; the reason it reports is not judged")
            continue
        own = [(k, st, r) for k, st, r in e.exits if k == "return" and any(x[0] == "run" for x in st.trace)]
        if not own:
            continue
        txt = str(outer.arg_types)
        full = "ExecutionContext" in txt or re.search(r"&mut (\w+::)*Worker\b", txt) is not None
        for k, st, r in own:
            n += 1
            w = f"{b.pretty} under {flow.show_facts(st)[:500]}"
            cpu_none = any(isinstance(f, tuple) and f[0] == "disc" and v == 0 and f[1][0] == "call" and CPU.search(f[1][1]) for f, v in st.facts.items())
            says = {"cpu": False if cpu_none else guard_says(st, r"CpuEnforcer::was_terminated$"), "wall": guard_says(st, r"TimeoutGuard::was_triggered$"),
                    "memory": flag_says(st, "memory_limit_hit"), "abort": flag_says(st, "aborted")}
            if not full:
                says["memory"] = says["abort"] = False
            v = unready(r)
            kind = outcome(st, v)
            if kind == "Ok":
                ran = max([i for i, x in enumerate(st.trace) if x[0] in ("run", "await")], default=0)
                for nm, q in ORDER:
                    if not (q == "cpu" and cpu_none or not full and q in FLAGS.values()):
                        ctx.require(any(x == ("asked", q) for x in st.trace[ran:]), "asked-after-run", f"{outer.pretty}:{q}", f"{outer.pretty} reports success without having looked at the {q} limit after the run", w)
                    ctx.require(says[q] is False, "success-means-no-limit", f"{outer.pretty}:{q}", f"{outer.pretty} reports success although the {q} limit may have been hit", w)
                ok = [x for x in st.trace if x[0] == "run" and not x[2] == ()]
                ctx.require(not ok or any(result_ok(st, x[3]) for x in ok), "success-means-ok", outer.pretty, f"{outer.pretty} reports success although the script's run need not have succeeded", w)
            elif kind in dict(ORDER):
                q = dict(ORDER)[kind]
                ctx.require(says[q] is True, "reason-fired", f"{outer.pretty}:{q}", f"{outer.pretty} reports {kind} although that limit need not have been hit", w)
                for nm, q2 in ORDER:
                    if q2 == q:
                        break
                    ctx.require(says[q2] is False, "most-specific-first", f"{outer.pretty}:{q}<{q2}", f"{outer.pretty} reports {kind} although the more specific {nm} may have been hit", w)
            elif kind in ("Exception", "MaxIterationsReached"):
                for nm, q in ORDER:
                    ctx.require(says[q] is False, "limit-before-exception", f"{outer.pretty}:{q}", f"{outer.pretty} reports the script's own outcome although the {q} limit may have been hit", w)
            elif kind is None:
                ctx.require(False, "reason-known", outer.pretty, f"what {outer.pretty} returns cannot be told: {flow.show(v)[:120]}", w)
    ctx.floor("results returned after running tenant code", n, 12)


def unready(r):
    while r is not None and r[0] == "agg" and r[1].endswith("Poll::Ready"):
        r = r[3][0]
    return r


def outcome(st, v):
    if v is None:
        return None
    if v[0] == "agg" and v[1].endswith("Result::Ok"):
        return "Ok"
    if v[0] == "agg" and v[1].endswith("Result::Err"):
        x = v[3][0]
        if x[0] == "agg":
            return last(x[1])
        return "Other" if flow.mentions(x, lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "call") else None
    d = st.facts.get(("disc", v))
    return None


def result_ok(st, res):
    for f, v in st.facts.items():
        if isinstance(f, tuple) and f[0] == "disc" and v == 0 and has(f[1], res):
            return True
        if isinstance(f, tuple) and f[0] == "call" and re.search(r"is_(ok|err)$", f[1]) and has(f, res) and v is f[1].endswith("is_ok"):
            return True
    return False
