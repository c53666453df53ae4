"""P03: heap exhaustion; what every isolate is created with (also used by P02)."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *
from .guards import built, fld

CREATE = re.compile(r"v8::(?:isolate::)?(?:Isolate::(new|new_unentered)|OwnedIsolate::new|UnenteredIsolate::new)$")
RUNS = re.compile(r"v8::(?:script::)?(?:Script::run|Function::call|Module::evaluate|UnboundScript::bind_to_current_context|Module::instantiate_module)$")
ADD = "add_near_heap_limit_callback"
MB = 1024 * 1024
HEADROOM = 256 * 1024


def last(n):
    return n.split("::")[-1]


def deref_all(t):
    while t[0] in ("mut", "ptr") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def has_state(v):
    return any(isinstance(x, tuple) and len(x) == 5 and x[0] == "agg" and x[1].endswith("HeapLimitState") for x in flow.walk(v))


@check("P03", "path-sensitive dataflow over MIR: callback effects on all paths, and a must-call rule at every isolate construction",
       "V8's own behaviour after the callback returns is trusted; isolates that only compile and never run code are exempt.")
def p03(ctx):
    """Every path of the near-heap-limit callback must set the flag, terminate the isolate and return strictly more than the
    current limit (by a fixed headroom); the installer must register that callback with a pointer into the box it returns; and
    on every path of every function that creates an isolate that runs code the protection must be installed on that isolate,
    with the same flag that is kept for reporting, before any context is created, and its state kept next to the isolate and
    dropped after it."""
    p = ctx.prog("scope")
    inst = [(b, bb, t) for b, bb, t in callers(p, ADD + "$") if "::tests::" not in b.pretty]
    ctx.floor("functions installing the callback", len(inst), 1)
    cbs = set()
    installers = set()
    # a helper that only registers the callback is followed from the function that returns the state
    todo, tops = [b for b, _, _ in inst], []
    while todo:
        b = todo.pop()
        if "HeapLimitState" in ret_type(b):
            tops.append(b)
            continue
        up = [c for c, _, _ in callers(p, re.escape(b.pretty) + "$") if "::tests::" not in c.pretty and c.pretty.rsplit("::", 1)[0] == b.pretty.rsplit("::", 1)[0]]
        if not up:
            tops.append(b)
        todo += up
    for b in {b.pretty: b for b in tops}.values():
        installers.add(b.pretty)

        def boxes(e, st, ci):
            if ci.path == "std::boxed::Box::new" and has_state(e.strip(st, ci.vals[0])):
                e.emit(st, ("box",), 3)
        R = Rec(lambda e, st, k, n, a, r: ("install", a, r) if k == "call" and n.endswith(ADD) else ("remove", a, r) if k == "call" and "near_heap_limit" in n else None, call=boxes)
        e = ctx.paths(p, b, R)
        iso = ("arg", b.local_name(b.args[0]))
        flags = [("arg", b.local_name(a)) for a in b.args if "AtomicBool" in b.arg_types[a] or "Atomic<bool>" in b.arg_types[a]]
        for k, st, r in e.exits:
            if k != "return":
                continue
            w = f"{b.pretty}: {[ev[0] for ev in st.trace]} -> {flow.show(r)}"
            ins = [ev for ev in st.trace if ev[0] == "install"]
            ctx.require(len([ev for ev in st.trace if ev[0] == "box"]) <= 1, "install", "state", "the state is moved to another box after its address was taken", w)
            if not ctx.require(len(ins) == 1 and not any(ev[0] == "remove" for ev in st.trace), "install", "once", f"the callback is registered {len(ins)} times", w):
                continue
            a = ins[0][1]
            ctx.require(deref_all(a[0]) == iso, "install", "isolate", f"the callback is registered on {flow.show(a[0])}", w)
            cb = a[1]
            cbs.add(cb[1] if cb[0] == "fn" else flow.show(cb))
            st_v = deref_all(a[2])
            ctx.require(same(st_v, deref_all(r)), "install", "state", f"the callback's state {flow.show(a[2])} is not the box that is returned {flow.show(r)}", w)
            ss = [x for x in flow.walk(r) if isinstance(x, tuple) and len(x) == 5 and x[0] == "agg" and x[1].endswith("HeapLimitState")]
            if ctx.require(len(ss) == 1, "install", "state-built", "the state is not built here", w):
                s = ss[0]
                vals = dict(zip(s[4], s[3]))
                ctx.require(any(v in flags for v in vals.values()), "install", "flag", "the state does not hold the given flag", w)
                ctx.require(any(v[0] == "call" and v[1].endswith("thread_safe_handle") and deref_all(v[2][0]) == iso for v in vals.values()), "install", "handle", "the state does not hold this isolate's handle", w)
    for c in sorted(cbs):
        b = p.by_pretty.get(c) or next((x for x in p.by_pretty.values() if x.pretty.endswith("::" + last(c))), None)
        if b is None:
            raise Missing(f"callback:{c}", f"the callback {c} cannot be resolved")
        data, cur = ("arg", b.local_name(b.args[0])), ("arg", b.local_name(b.args[1]))
        R = Rec(cb_want)
        e = ctx.paths(p, b, R)
        n = 0
        for k, st, r in e.exits:
            if k != "return":
                ctx.require(k != "diverge", "callback", "returns", "the callback does not return", b.pretty)
                continue
            n += 1
            w = f"{b.pretty}: {[ev[0] for ev in st.trace]} -> {flow.show(r)} under {flow.show_facts(st)}"
            fl = [ev for ev in st.trace if ev[0] == "flag"]
            ctx.require(bool(fl) and all(ev[1] in ("store", "swap", "fetch_or") and ev[2][1] == flow.TRUE and has(ev[2][0], data) for ev in fl), "callback", "flag", "a path of the callback does not set the memory-limit flag", w)
            tm = [ev for ev in st.trace if ev[0] == "term"]
            ctx.require(bool(tm) and all(has(ev[1][0], data) for ev in tm) and not any(ev[0] == "cancel" for ev in st.trace), "callback", "terminates", "a path of the callback does not terminate the script", w)
            d = lin(r)
            rest = {s: c for s, c in d.items() if s is not None and s != cur}
            ctx.require(d.get(cur) == 1 and not rest and d.get(None, 0) >= HEADROOM, "callback", "headroom", f"the callback returns {show_lin(d)}: the script gets no headroom to unwind", w)
        ctx.require(n > 0, "callback", "paths", "the callback never returns", b.pretty)
    for kind, feats in (("full", ()), ("full", ("sandbox",))):
        sites(ctx, ctx.prog(kind, feats), {x for x in installers}, feats, "P03")


def cb_want(e, st, k, n, a, r):
    if k != "call":
        return None
    if atomic(n) in MUTATORS and len(a) > 1 and a[1][0] == "c" and isinstance(a[1][1], bool):
        return ("flag", atomic(n), a)
    if n.endswith("cancel_terminate_execution"):
        return ("cancel", a)
    if n.endswith("terminate_execution"):
        return ("term", a)
    return None


def creation_sites(p):
    out = {}
    for b, bb, t in callers(p, CREATE.pattern):
        if "::tests::" in b.pretty:
            continue
        out.setdefault(b.pretty, b)
    return out


def sites(ctx, p, installers, feats, mode):
    tag = "".join("+" + f for f in feats)
    cs = creation_sites(p)
    served = 0
    for name, b in sorted(cs.items()):
        b.parse()
        runs = any(t[0] == "call" and RUNS.search(mir.strip_generics(t[2])) for t in (b.block(x)[1] for x in b.blocks))
        stored = "Isolate" in " ".join(str(f) for f in (p.adt(mir.type_head(ret_type(b))) or {"variants": [("", [])]})["variants"][0][1]) if p.adt(mir.type_head(ret_type(b))) else False
        stored = stored or re.search(r"\(.*Runtime|Isolate", ret_type(b)) is not None
        if not runs and not stored:
            ctx.note(f"{name} creates an isolate that only compiles; exempt") if mode == "P03" and not feats else None
            continue
        served += 1

        def want(e, st, k, n, a, r):
            if k != "call":
                return None
            if CREATE.search(n):
                return ("create", a, r)
            if n in installers or last(n) == ADD:
                return ("protect", a, r)
            if re.search(r"v8::(context::|Context::|\w+::Context::)new$", n):
                return ("context", a, r)
            if n.endswith("CreateParams::heap_limits"):
                return ("limits", a, r)
            if n.endswith("CreateParams::array_buffer_allocator"):
                return ("allocator", a, r)
            if n.endswith("CustomAllocator::new"):
                return ("custom", a, r)
        # creation may sit in closures of the body; helpers that wrap the installer are followed
        R = Rec(want, limit=2)
        helpers = {c.pretty for i in installers for c, _, _ in callers(p, re.escape(i) + "$")} | {c.pretty for c, _, _ in callers(p, r"CreateParams::(heap_limits|array_buffer_allocator)$")}
        R.inline = lambda x: x.pretty in helpers and x.pretty not in installers
        R.call = arc_identity
        e = ctx.paths(p, b, R, max_states=200000)
        nret = 0
        for k, st, r in e.exits:
            if k != "return":
                continue
            nret += 1
            tr = list(st.trace)
            w = f"{name}{tag}: {[ev[0] for ev in tr]}"
            cr = [i for i, ev in enumerate(tr) if ev[0] == "create"]
            if not cr:
                continue
            iso = tr[cr[0]][2]
            if mode == "P03":
                pr = [i for i, ev in enumerate(tr) if ev[0] == "protect"]
                if not ctx.require(len(pr) == 1 and pr[0] > cr[0] and has(tr[pr[0]][1][0], iso), "installed", name.split("::")[-2] + tag, "an isolate that serves events is created without heap-limit protection", w):
                    continue
                first_ctx = next((i for i, ev in enumerate(tr) if ev[0] == "context"), None)
                ctx.require(first_ctx is None or first_ctx > pr[0], "installed", f"{name.split('::')[-2]}{tag}:before-context", "a context is created before the protection is installed", w)
                flag = [x for x in tr[pr[0]][1][1:] if x[0] == "call" and x[1] == "new"]
                state = tr[pr[0]][2]
                own = [x for x in flow.walk(r) if isinstance(x, tuple) and len(x) == 5 and x[0] == "agg" and x[4] and p.adt(x[1]) and any(has(y, iso) for y in x[3])]
                if ctx.require(bool(own), "kept", f"{name.split('::')[-2]}{tag}:owner", "the isolate is not kept in the returned value", w):
                    o = own[-1]
                    fs = dict(zip(o[4], o[3]))
                    ks = [f for f, v in fs.items() if has(v, state) and not has(v, iso)] or [f for f, v in fs.items() if same(v, state)]
                    ki = [f for f, v in fs.items() if deref_all(v) == iso or same(deref_all(v), iso)]
                    ctx.require(bool(ks), "kept", f"{name.split('::')[-2]}{tag}:state", "the callback's state is dropped while the isolate lives", w)
                    order = [f[0] for f in p.adt(o[1])["variants"][0][1]]
                    ctx.require(not ks or not ki or order.index(ks[0]) > order.index(ki[0]), "kept", f"{name.split('::')[-2]}{tag}:drop-order", "the callback's state is dropped before the isolate", w)
                    ctx.require(bool(flag) and any(same(v, flag[0]) for v in fs.values()), "kept", f"{name.split('::')[-2]}{tag}:flag", "the flag set by the callback is not the one kept for reporting", w)
            hl = [ev for ev in tr if ev[0] == "limits"]
            if mode == "P03":
                ok = len(hl) == 1 and has(tr[cr[0]][1][0], hl[0][2]) and mb(hl[0][1][2], "heap_max") and mb(hl[0][1][1], "heap_initial")
                ctx.require(ok, "configured", name.split("::")[-2] + tag, f"the isolate's heap limits are {[flow.show(x) for ev in hl for x in ev[1][1:]]}", w)
            if mode == "P02":
                al = [ev for ev in tr if ev[0] == "allocator"]
                cu = [ev for ev in tr if ev[0] == "custom"]
                ok = len(al) == 1 and len(cu) == 1 and has(tr[cr[0]][1][0], al[0][2]) and has(al[0][1][1], cu[0][2])
                ctx.require(ok, "installed", name.split("::")[-2], "an isolate that serves events is created without the limiting allocator", w)
                if ok:
                    ctx.require(any(mb(x, "heap_max") for x in cu[0][1]), "installed", name.split("::")[-2] + ":limit", f"the allocator's limit is {[flow.show(x) for x in cu[0][1]]}", w)
                    fl = [x for x in cu[0][1] if x[0] == "call" and x[1] == "new"]
                    ctx.require(bool(fl) and any(same(y, fl[0]) for x in flow.walk(r) if isinstance(x, tuple) and len(x) == 5 and x[0] == "agg" and x[4] for y in x[3]), "installed", name.split("::")[-2] + ":flag", "the allocator's flag is not the one kept for reporting", w)
        ctx.require(nret > 0, "installed", name.split("::")[-2] + tag + ":paths", "no path returns", name)
    ctx.floor(f"isolate constructions analysed{tag}", served, 2)


def ret_type(b):
    return b.locals.get(0, "")


def mb(t, what):
    """t is limits.<what>_mb * 1 MiB"""
    d = lin(t)
    return len(d) == 1 and None not in d and list(d.values()) == [MB] and any(isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and what in str(x[2]) for x in flow.walk(list(d)[0]))
