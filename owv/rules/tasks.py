"""P22 and P23: the event loop and the tasks it starts, one message and one path at a time."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .pool import outside_tests, FEATURES
from .settle import variants_of, RECV

REQ, ANS = "SchedulerMessage", "CallbackMessage"
SPAWN = re.compile(r"(^|::)(spawn|spawn_local|spawn_on|spawn_local_on|spawn_pinned)$")
THREAD = re.compile(r"(spawn_blocking|thread::(Builder::)?spawn|thread::scope)$")
SEND = re.compile(r"(UnboundedSender|Sender)::(send|try_send|blocking_send)$")
CANCELLED = re.compile(r"CancellationToken::cancelled(_owned)?$|WaitForCancellationFuture")
UNTIL = re.compile(r"CancellationToken::run_until_cancelled(_owned)?$|FutureExt::with_cancellation_token(_owned)?$")
FRESH = re.compile(r"CancellationToken::(new|default)$|CancellationToken as .*Default>::default$")
FAILS = re.compile(r"err|reject|fail", re.I)
TIMER = re.compile(r"Timeout|Interval|Timer")


def about(b):
    return bool(re.search(f"{ANS}|{REQ}|CallbackSender", b.text))


def is_cancel(t):
    while isinstance(t, tuple) and t and (t[0] == "mut" or t[0] == "call" and len(t[2]) == 1 and re.search(r"(into_future|Pin::new|new_unchecked|pin|as_mut|fuse|Box::pin)$", t[1])):
        t = t[1] if t[0] == "mut" else t[2][0]
    return isinstance(t, tuple) and t[:1] == ("call",) and bool(CANCELLED.search(t[1]))


def asyncs(st, e, t):
    """the async blocks in the future given to spawn"""
    t = e.strip(st, t)
    return [x for x in flow.walk(t) if isinstance(x, tuple) and x and x[0] == "agg" and isinstance(x[1], str) and x[1].startswith("{async")][:1]


def answer(e, st, a):
    """the CallbackMessage in the arguments of a send, as (variant index, aggregate)"""
    for x in a[1:]:
        x = e.strip(st, x)
        if x[0] == "agg" and re.search(ANS + r"::\w+$|^" + ANS, x[1]):
            return x
    return None


class Loop:
    """the function that takes requests, message by message"""

    def __init__(self, ctx, p, b):
        self.ctx, self.p, self.b = ctx, p, b
        self.reqs, self.seen, self.tasks, self.paths = variants_of(p, REQ), set(), {}, {}

        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            if n == "await" and flow.mentions(a[0], lambda t: t[:1] == ("call",) and bool(RECV.search(t[1]))):
                return ("msg", r) if self.is_req(a[0]) else None
            if RECV.search(n) and n.endswith("try_recv") and self.is_req(("call", n, a)):
                return ("msg", r)
            if not any(x[0] == "msg" for x in st.trace):
                return None
            if SPAWN.search(n):
                got = [g for x in a for g in asyncs(st, e, x)]
                return ("spawn", n, tuple(got), tuple(a), r)
            if SEND.search(n):
                m = answer(e, st, a)
                return ("answer", m) if m is not None else None
            if n.endswith("::abort"):
                return ("abort", a[0])
            if THREAD.search(n):
                return ("thread", n, tuple(a))
            return None

        def again(e, st, ci):
            if RECV.search(ci.path) and any(x[0] == "msg" for x in st.trace) and self.is_req(("call", ci.path, tuple(e.strip(st, v) for v in ci.vals))):
                v = self.segment(e, st)
                if v is None or self.owed(v) or st.data.get("round"):
                    return []
                # what a message without callback leaves behind may change what the next one meets
                st.trace, st.data = (), dict(st.data, round=1)
            return None

        def keep(f):
            return isinstance(f, tuple) and f[0] == "disc" and ("recv" in str(f)[:3000])
        e = ctx.paths(p, b, Rec(want, keep=keep, call=again, inline=about), max_states=60000)
        for kind, st, res in e.exits:
            if kind == "return":
                self.segment(e, st)

    def is_req(self, t):
        """a receive in the loop is from the queue of requests unless it is the timers'"""
        return not flow.mentions(t, lambda x: x[:1] == ("call",) and x[1].endswith("StreamExt::next"))

    def segment(self, e, st):
        msg = next((x[1] for x in st.trace if x[0] == "msg"), None)
        if msg is None:
            return
        for f, v in st.facts.items():
            if isinstance(f, tuple) and f[0] == "disc" and isinstance(v, int) and f[1][:1] == ("fld",) and f[1][1] == msg and f[1][2] in ("Some.0", "Ok.0") and v < len(self.reqs):
                key = (v, tuple(repr(x)[:6000] for x in st.trace))
                if key not in self.seen:
                    self.seen.add(key)
                    self.judge(e, st, f[1], v)
                return v

    def owed(self, v):
        name, fields = self.reqs[v]
        return bool(fields) and "CallbackId" in fields[0] and not TIMER.search(name)

    def judge(self, e, st, m, v):
        name, fields = self.reqs[v]
        self.paths[name] = self.paths.get(name, 0) + 1
        ident = ("fld", m, f"{name}.0")
        owed = self.owed(v)
        has_id = lambda t: flow.mentions(t, lambda x: x == ident)
        tasks = [g for x in st.trace if x[0] == "spawn" for g in x[2]]
        for g in tasks:
            self.tasks.setdefault((name, g), (e, st, ident if owed else None))
        blind = [x for x in st.trace if x[0] == "spawn" and not x[2]]
        if owed:
            got = [g for g in tasks if has_id(g)] + [x for x in st.trace if x[0] == "answer" and x[1][3] and e.strip(st, x[1][3][0]) == ident] + [x for x in blind if any(has_id(y) for y in x[3])]
            self.ctx.require(len(got) == 1, "one-answer-arranged", f"{self.b.pretty}:{name}", f"{self.b.pretty}: a path of {name} starts {len(got)} tasks or answers for the operation, not one", self.b.pretty)
            self.ctx.require(not any(x[0] == "abort" for x in st.trace), "not-aborted", f"{self.b.pretty}:{name}", f"{self.b.pretty} aborts the task that is to answer {name}", self.b.pretty)


def loops(p):
    out = []
    for b in p.bodies.values():
        if not outside_tests(b) or f"{REQ}" not in b.text:
            continue
        b.parse()
        for k in b.blocks:
            t = b.block(k)[1]
            if t[0] == "call" and RECV.search(mir.strip_generics(t[2])) and any(re.search(r"Receiver<[^<>]*" + REQ + ">", str(b.locals.get(x[1][0], "") if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], tuple) else "")) for x in t[3]) or \
               t[0] == "call" and RECV.search(mir.strip_generics(t[2])) and re.search(r"Receiver::<[^<>]*" + REQ + ">", t[2]):
                out.append(b)
                break
    return out


def room(p):
    """capacity of a new stream's channel, as far as the source says"""
    got = []
    for b in p.bodies.values():
        if outside_tests(b) and "with_high_water_mark" in b.text:
            b.parse()
            for k in b.blocks:
                t = b.block(k)[1]
                if t[0] == "call" and mir.strip_generics(t[2]).endswith("with_high_water_mark"):
                    m = re.search(r"(\d+)_usize", str(t[3]))
                    c = t[3][0][1] if t[3] and t[3][0][0] == "const" else None
                    got.append(int(m.group(1)) if m else const_of(p, c) if isinstance(c, str) else c if isinstance(c, int) else None)
    return min([x for x in got if x is not None], default=99)


def const_of(p, name):
    m = re.search(r"const\s+" + re.escape(name.split("::")[-1]) + r"\s*:\s*usize\s*=\s*(\d[\d_]*)", p.unit.expanded)
    return int(m.group(1).replace("_", "").replace("usize", "")) if m else None


class Task:
    """one started task: the answers it sends, where it waits and what it does once cancelled"""

    def __init__(self, ctx, p, name, agg, ident, origin):
        self.ctx, self.p, self.name, self.ident, self.origin = ctx, p, name, ident, origin
        self.agg, self.nested, self.waits, self.unwatched, self.late = agg, [], 0, {}, {}
        self.counts, self.died = {}, None

    def where(self):
        return f"{self.origin} ({self.name})"

    # what the engine asks
    def inline(self, b):
        return about(b) or b.pretty.startswith(self.body.pretty + "::")

    def keep_fact(self, f):
        """what the operation gave: not what the queues a task serves brought"""
        if not (isinstance(f, tuple) and f[0] == "disc"):
            return False
        t = f[1]
        while isinstance(t, tuple) and t[:1] in (("fld",), ("mut",)):
            t = t[1]
        return t[:2] == ("call", "await") and self.mine(t)

    def covered(self, st):
        return any(isinstance(f.post, tuple) and f.post[:1] == ("selwrap",) for f in st.frames)

    def on_select(self, e, st, futs, off):
        self.waits += 1
        k = next((i for i, f in enumerate(futs) if is_cancel(f)), None)
        mask = off[1] if isinstance(off, tuple) and off[:1] == ("c",) and isinstance(off[1], int) else None
        watches = k is not None and not (mask is not None and mask >> k & 1)
        if not watches and not self.covered(st):
            self.unwatched.setdefault(f"select:{st.line or ''}", "waits for several things without the cancellation among them")
        self.tokens(e, st, futs[k] if k is not None else None)
        if any(x[0] == "cancelled" for x in st.trace) and not self.covered(st):
            self.late.setdefault("waits", "waits again after it was cancelled")
        st.data = dict(st.data, sel=len(futs))

    def tokens(self, e, st, t):
        if t is not None and flow.mentions(t, lambda x: x[:1] == ("call",) and bool(FRESH.search(x[1]))):
            self.unwatched.setdefault("own-token", "watches a token of its own, not the request's")

    def event(self, e, st, k, n, a, r):
        if k == "select":
            st.data = dict(st.data, branch=r is not None)
            return
        branch = st.data.get("branch")
        if n == "await" and k == "call":
            st.data = dict(st.data, branch=False)
            t = a[0]
            if is_cancel(t):
                self.tokens(e, st, t)
                if not any(x[0] == "cancelled" for x in st.trace):
                    e.emit(st, ("cancelled",), 3)
                return
            if UNTIL.search(t[1] if t[:1] == ("call",) else ""):
                self.waits += 1
                self.tokens(e, st, t)
                e.emit(st, ("until", r), 3)
                return
            if not branch:
                self.waits += 1
                if any(x[0] == "cancelled" for x in st.trace) and not self.covered(st):
                    self.late.setdefault("waits", "waits again after it was cancelled")
                if not self.covered(st) and not self.has_room(e, st, t):
                    self.unwatched.setdefault(f"await:{flow.show(t)[:60]}", f"waits for {flow.show(t)[:80]} without watching the cancellation")
            return
        if k != "call":
            return
        if SPAWN.search(n):
            for x in a:
                for g in asyncs(st, e, x):
                    if g not in [y[0] for y in self.nested]:
                        self.nested.append((g,))
                    if self.ident is not None and flow.mentions(g, lambda t: t == self.ident):
                        e.emit(st, ("answer", "task", g), 4)
        elif SEND.search(n):
            m = answer(e, st, a)
            if m is not None:
                if self.ident is not None and m[3] and e.strip(st, m[3][0]) == self.ident:
                    e.emit(st, ("answer", m[1].split("::")[-1], m[3][1:]), 4)
                elif self.ident is not None and not re.search(r"WebSocketEvent$", m[1]):
                    e.emit(st, ("other", m[1].split("::")[-1]), 3)
                if any(x[0] == "cancelled" for x in st.trace) and not FAILS.search(m[1]) and not any(FAILS.search(str(x[1]).split("::")[-1]) for y in m[3] for x in flow.walk(y) if isinstance(x, tuple) and x and x[0] == "agg"):
                    self.late.setdefault("answer", f"is cancelled and then sends {m[1].split('::')[-1]}, as if the operation had ended")
        if any(x[0] == "cancelled" for x in st.trace) and any(flow.mentions(x, lambda t: t[:1] == ("agg",) and re.search(r"StreamChunk::Done$", str(t[1])) is not None) for x in a if isinstance(x, tuple)):
            self.late.setdefault("end", "is cancelled and then marks the stream as ended normally")

    def has_room(self, e, st, t):
        """one of the first two writes to a stream this path has just made: the channel has room"""
        if not (t[:1] == ("call",) and t[1].endswith("StreamManager::write_chunk") and len(t[2]) == 3):
            return False
        sid = e.strip(st, t[2][1])
        if not (sid[:1] == ("call",) and sid[1].endswith("create_stream")) or room(self.p) < 2:
            return False
        n = sum(x == ("write", sid) for x in st.trace)
        e.emit(st, ("write", sid), 4)
        return n < 2

    def dies(self, st, what):
        if self.ident is not None and not any(x[0] in ("answer", "cancelled") for x in st.trace):
            self.died = self.died or f"{what[:160]} (line {st.line})"

    def on_diverge(self, e, st, ci):
        shown = " ".join(flow.show(e.strip(st, x)) for x in ci.vals)
        if "branches are disabled" not in shown:
            self.dies(st, f"{ci.path} {shown}")

    def on_panic(self, e, st, ci, x):
        x = e.strip(st, x)
        if flow.mentions(x, lambda t: t[:2] == ("call", "await")):
            self.dies(st, f"{ci.path.split('::')[-1]} of {flow.show(x)}")

    def call(self, e, st, ci):
        if ci.path.endswith("CancellationToken::is_cancelled") and ci.ret is not None:
            a, b = st.fork(), st.fork()
            e.emit(a, ("cancelled",), 3)
            return e.finish(a, ci, ("c", True)) + e.finish(b, ci, ("c", False))
        return None

    def run(self, e0, st0):
        self.body = e0.body_of_type(st0, self.agg[1]) or e0.closure_body(st0, self.agg)
        if self.body is None:
            raise Missing(f"task:{self.name}", f"the body of the task that {self.origin} starts for {self.name} was not found")
        self.body.parse()
        heap = {k: v for k, v in st0.heap.items()}
        args = {self.body.args[0]: self.agg}
        e = flow.Engine(self.p, self, max_states=60000)
        try:
            e.run(self.body, args=args, heap=heap)
        except flow.Budget as x:
            raise Missing(f"budget:{self.body.pretty}", str(x))
        self.ctx.functions |= {f"{b}" for b in e.bodies_seen}
        self.ctx.states += e.nstates
        self.e = e
        return self

    def honest(self, ans, st):
        """an answer is a failure, carries what the operation gave, or is sent where the operation is known to have succeeded"""
        if FAILS.search(ans[1]):
            return True
        parts = [x for y in ans[2] for x in flow.walk(self.e.strip(st, y)) if isinstance(x, tuple) and x]
        if any(x[0] == "agg" and FAILS.search(str(x[1]).split("::")[-1]) for x in parts):
            return True
        own = lambda t: t[:2] == ("call", "await") and self.mine(t)
        if any(own(x) for x in parts):
            return True
        known = [(f[1], v) for f, v in st.facts.items() if isinstance(f, tuple) and f[0] == "disc" and isinstance(v, int) and flow.mentions(f[1], own) and "Sender::send" not in str(f)[:200]]
        deepest = [(t, v) for t, v in known if not any(u != t and flow.mentions(u, lambda x: x == t) for u, _ in known)]
        return bool(deepest) and all(v == 0 for t, v in deepest)

    def mine(self, t):
        """an await of the task itself, not the receipt of the request in the loop"""
        return not (t[2][0][:1] == ("call",) and t[2][0][1].endswith("Receiver::recv"))

    def outcomes(self):
        """(cancelled, answers, others) of each path that ends"""
        for kind, st, res in self.e.exits:
            if kind != "return":
                continue
            c = any(x[0] == "cancelled" for x in st.trace)
            for x in st.trace:
                if x[0] == "until" and (st.facts.get(("disc", x[1])) == 0 or st.facts.get(("disc", self.e.strip(st, x[1]))) == 0):
                    c = True
            yield c, [x for x in st.trace if x[0] == "answer"], [x for x in st.trace if x[0] == "other"], st


def started(ctx, p):
    """every task of the event loop, the ones its tasks start included"""
    ls = loops(p)
    ctx.floor("functions that take requests from the script", len(ls), 1)
    out, found = [], []
    for b in ls:
        l = Loop(ctx, p, b)
        found.append(l)
        for (name, g), (e, st, ident) in l.tasks.items():
            if ident is not None and not flow.mentions(g, lambda t: t == ident):
                ident = None
            t = Task(ctx, p, name, g, ident, b.pretty).run(e, st)
            out.append((l, t))
    return found, out


def sends_raw(b):
    b.parse()
    return any(b.block(k)[1][0] == "call" and re.search(r"UnboundedSender::<[^<>]*" + ANS + r">::send$", b.block(k)[1][2]) for k in b.blocks)


@check("P22", "path enumeration over MIR of the event loop per request kind, and of each task it starts with the values it captured: completions sent for the captured callback on each path that is not cancelled",
       "an operation whose future never completes, and panics inside library code or the host's operations, are outside the rule; the timers' completions are P04's matter", level="other")
def p22(ctx):
    """The event loop is followed for one message of each kind: each path of a request that carries a callback starts exactly one task that captured the callback's identifier, or answers on the spot.  Each
    task is followed with the values it captured, async functions it awaits included: a path that ends without the cancellation branch having been taken sends exactly one completion for that identifier,
    no cancelled path sends two, no completion is sent for another identifier, and no outcome of the operation makes the task panic before it has answered."""
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        found, tasks = started(ctx, p)
        owed = 0
        for l in found:
            for name, fields in l.reqs or ():
                ctx.require(l.paths.get(name, 0) > 0, "kind-handled", f"{l.b.pretty}:{name}", f"{l.b.pretty} has no path for {name}", l.b.pretty)
        for l, t in tasks:
            if t.ident is None:
                continue
            owed += 1
            ends = 0
            w = f"{t.body.pretty}"
            for c, ans, oth, st in t.outcomes():
                ends += not c
                got = ", ".join(x[1] for x in ans) or "nothing"
                ctx.require(len(ans) == 1 or c and not ans, "answered-once", f"{l.b.pretty}:{t.name}", f"the task for {t.name} {'is cancelled' if c else 'ends'} having sent {got} for its callback (line {st.line})", w)
                ctx.require(not oth, "own-identifier", f"{l.b.pretty}:{t.name}", f"the task for {t.name} sends {', '.join(x[1] for x in oth)} for another identifier than the request's", w)
                if len(ans) == 1 and not c and len(ans[0]) == 3 and isinstance(ans[0][2], tuple) and not ans[0][1] == "task":
                    ctx.require(t.honest(ans[0], st), "failure-shown", f"{l.b.pretty}:{t.name}", f"the task for {t.name} answers {ans[0][1]} although the operation's outcome on this path is not a success it could come from (line {st.line})", w)
            ctx.require(ends > 0, "ends", f"{l.b.pretty}:{t.name}", f"the task for {t.name} has no path that ends without cancellation", w)
            ctx.require(not t.died, "survives", f"{l.b.pretty}:{t.name}", f"the task for {t.name} can panic before it answers: {t.died}", w)
            ctx.sample(f"{t.name}: {ends} uncancelled paths, answers " + "/".join(sorted({x[1] for _, ans, _, _ in t.outcomes() for x in ans})))
        for b in p.bodies.values():
            if outside_tests(b) and ANS in b.text and sends_raw(b):
                ok = [0]

                def want(e, st, k, n, a, r, ok=ok):
                    if k == "call" and n.endswith("UnboundedSender::send"):
                        return ("sent", r)
                    if k == "call" and re.search(r"Notify::notify_(one|waiters|last)$", n):
                        return ("wake", n)
                    return None
                e = ctx.paths(p, b, Rec(want, keep=lambda f: isinstance(f, tuple) and "Sender::send" in str(f)[:3000], inline=lambda x: "Notify" in x.text or x.pretty.startswith(b.pretty + "::")))
                for kind, st, res in e.exits:
                    last = max((i for i, x in enumerate(st.trace) if x[0] == "sent"), default=None)
                    if kind != "return" or last is None:
                        continue
                    failed = any(v == 1 and isinstance(f, tuple) and f[0] == "disc" and e.strip(st, f[1]) == e.strip(st, st.trace[last][1]) for f, v in st.facts.items())
                    woke = any(x == ("wake", "tokio::sync::Notify::notify_one") or x[0] == "wake" and x[1].endswith("notify_one") for x in st.trace[last + 1:])
                    ok[0] += 1
                    ctx.require(woke or failed, "wakes", b.pretty, f"{b.pretty} queues a completion without waking the request that waits for it afterwards", b.pretty)
                ctx.floor(f"paths of {b.pretty} that queue a completion", ok[0], 1)
        ctx.floor(f"tasks that owe an answer ({'+'.join(feats) or 'default'})", owed, 8)


@check("P23", "path enumeration over MIR of every task the event loop starts, nested ones and awaited async functions included: each suspension point is a select with the cancellation among its enabled branches, and what follows cancellation",
       "that the runtime drops or polls a task once its token fires, and that library futures and the host's operations stop when dropped, is trusted; the loop itself ends with its queue (P24)", level="other")
def p23(ctx):
    """Every spawn in the event loop and in what it reaches is found.  Each started task is followed with the values it captured.  Every place where it suspends is a select that has the cancellation of the
    request's own token among its enabled branches, or lies in another branch of such a select, or is one of the first two writes to a stream the path has just created, which cannot wait.  A path that took
    the cancellation branch does not wait again, ends, sends no completion but an error and does not mark a stream as ended normally.  No task gets a token of its own, and none runs on a thread that cannot
    be cancelled."""
    from .runs import Graph
    for feats in FEATURES:
        p = ctx.prog("full", feats)
        found, tasks = started(ctx, p)
        g = Graph(p)
        names, todo = set(), [l.b.pretty for l in found]
        while todo:
            x = todo.pop()
            if x not in names:
                names.add(x)
                todo += sorted(g.out.get(x, ()))
        reach = [p.by_pretty[x] for x in sorted(names) if x in p.by_pretty]
        more = []
        for b in reach:
            for k in b.blocks:
                t = b.block(k)[1]
                if t[0] != "call":
                    continue
                n = mir.strip_generics(t[2])
                ctx.require(not FRESH.search(n), "own-token", f"{b.pretty}", f"{b.pretty} makes a cancellation token of its own (line {t[-1]}): the request's cancellation does not reach it", b.pretty)
                ctx.require(not THREAD.search(n), "thread", f"{b.pretty}", f"{b.pretty} moves work to a thread that cannot be cancelled (line {t[-1]})", b.pretty)
                if SPAWN.search(n) and b not in [l.b for l in found] and b not in more:
                    more.append(b)
        for b in more:
            got = {}

            def want(e, st, k, n, a, r):
                if k == "call" and SPAWN.search(n):
                    for x in a:
                        for y in asyncs(st, e, x):
                            got.setdefault(y, (e, st.fork()))
                return None
            ctx.paths(p, b, Rec(want, inline=lambda x: False))
            ctx.require(bool(got), "task-found", b.pretty, f"{b.pretty} starts a task whose body was not found", b.pretty)
            for y, (e, st) in got.items():
                tasks.append((None, Task(ctx, p, b.pretty.split("::")[-1], y, None, b.pretty).run(e, st)))
        n = 0
        for l, t in tasks:
            w = t.body.pretty
            n += t.waits
            for k, m in sorted(t.unwatched.items()):
                ctx.require(False, "watches", f"{w}:{k}", f"the task {w} ({t.name}) {m}", w)
            for k, m in sorted(t.late.items()):
                ctx.require(False, "after-cancel", f"{w}:{k}", f"the task {w} ({t.name}) {m}", w)
            ctx.require(t.waits > 0, "waits", w, f"no suspension point of the task {w} was found", w)
            ctx.require(any(c for c, *_ in t.outcomes()) or t.waits == 0, "can-be-cancelled", w, f"the task {w} ({t.name}) has no path that ends because of cancellation", w)
            ctx.sample(f"{w} ({t.name}): {t.waits} suspensions")
        tag = "+".join(feats) or "default"
        ctx.floor(f"tasks of the event loop ({tag})", len(tasks), 9)
        ctx.floor(f"suspension points ({tag})", n, 15)
