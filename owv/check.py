"""Check framework: python3 -m owv <PROPERTY> decides one property on /repo's current tree."""
import importlib, json, os, pkgutil, sys, time, traceback, hashlib
from . import build, mir, flow

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}


def check(pid, technique, note, level="other", explanation=""):
    """register fn(ctx) as the decision procedure of one property"""
    def d(fn):
        CHECKS[pid] = dict(fn=fn, technique=technique, note=note, level=level, explanation=explanation or (fn.__doc__ or "").strip())
        return fn
    return d


class Missing(Exception):
    """an anchor the rule needs is gone: fail closed"""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Unanalysed(Exception):
    """the sandbox does not compile this code and the stand-in types do not fit it any more"""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.violations, self.obligations, self.samples = [], {}, []
        self.functions, self.states, self.notes, self.counts = set(), 0, [], {}
        self._units, self._js = {}, None

    # ---- program access
    def prog(self, kind="scope", features=()):
        k = (kind, tuple(features))
        if k not in self._units:
            u = build.build(kind, features)
            self._units[k] = mir.Program(u)
            self._units[k].unanalysed = list(u.unanalysed)
            if u.unanalysed:
                self.notes.append(f"{kind}{list(features) or ''}: not type-checked against the stand-in types: {u.unanalysed}")
        return self._units[k]

    def js(self):
        if self._js is None:
            from . import js
            self._js = js.load()
        return self._js

    # ---- results
    def require(self, cond, rule, key, msg, where=""):
        """one obligation"""
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        if cond:
            o[1] += 1
        else:
            self.fail(f"{rule}:{key}", msg, where)
        return bool(cond)

    def fail(self, key, msg, where=""):
        if not any(v["key"] == key for v in self.violations):
            self.violations.append(dict(key=key, message=msg, where=where))

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.fail(f"floor:{name}", f"only {n} {name} found, at least {least} exist in the analysed design: the rule would pass vacuously")

    def note(self, s):
        self.notes.append(s)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---- path analysis
    def paths(self, prog, body, rule=None, args=None, data=None, **kw):
        """all abstract paths of a function; kw: unwind, cancel, max_states, max_inline"""
        if isinstance(body, str):
            b = prog.by_pretty.get(body)
            if b is None:
                raise Missing(f"fn:{body}", f"function {body} not found")
            body = b
        e = flow.Engine(prog, rule, **kw)
        try:
            e.run(body, args, data)
        except flow.Budget as x:
            raise Missing(f"budget:{body.pretty}", str(x))
        self.functions |= {f"{b}" for b in e.bodies_seen}
        self.states += e.nstates
        return e


def known():
    """known-findings: {property: {key: text}}"""
    out = {}
    p = f"{VERIF}/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def load_rules():
    from . import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module(f"owv.rules.{m.name}")


def run(pid):
    t0 = time.time()
    load_rules()
    c = CHECKS[pid]
    ctx = Ctx(pid)
    try:
        c["fn"](ctx)
    except Missing as x:
        ctx.fail("anchor:" + x.key, f"cannot analyse: {x}")
    except build.BuildError as x:
        ctx.fail("build", f"the sources do not compile for analysis: {x}")
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        traceback.print_exc()
        ctx.fail(f"analysis:{type(x).__name__}", f"the analysis could not process the code: {x!r} at {tb.name}:{tb.lineno}")
    kn = known().get(pid, {})
    new = [v for v in ctx.violations if v["key"] not in kn]
    old = [v for v in ctx.violations if v["key"] in kn]
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {kn[v['key']]} [{v['key']}]")
    nob = sum(o[0] for o in ctx.obligations.values())
    ndis = sum(o[1] for o in ctx.obligations.values())
    evd = os.environ.get("OWV_EVIDENCE", f"{VERIF}/evidence")
    os.makedirs(evd, exist_ok=True)
    ev = dict(property=pid, tier=ctx.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=c["level"],
              coverage=dict(explanation=c["explanation"] or c["technique"], obligations=nob, discharged=ndis,
                            rules={k: {"instances": v[0], "satisfied": v[1]} for k, v in ctx.obligations.items()},
                            counts=ctx.counts, functions_analysed=len(ctx.functions), functions=sorted(ctx.functions)[:400],
                            abstract_states=ctx.states, samples=ctx.samples or ["see functions"]),
              assumptions=[c["note"]] + ctx.notes, wall_s=round(time.time() - t0, 2), violations=len(new),
              known_findings=[v["key"] for v in old])
    if nob == 0 and not new:
        new.append(dict(key="floor:obligations", message="no obligation was generated", where=""))
    json.dump(ev, open(f"{evd}/{pid}.json", "w"), indent=1)
    for n in ctx.notes:
        print("note:", n)
    print(f"{pid}: {ndis}/{nob} obligations hold, {len(ctx.functions)} functions, {ctx.states} abstract states, {time.time()-t0:.1f}s")
    if new:
        rp = f"{evd}/{pid}.violations.txt"
        with open(rp, "w") as f:
            for v in new:
                f.write(f"[{v['key']}] {v['where']}\n  {v['message']}\n")
        for v in new[:20]:
            print(f"  [{v['key']}] {v['where']}: {v['message']}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main():
    pid = sys.argv[1]
    try:
        code = run(pid)
    except BaseException as x:      # e.g. a rule module that fails to import
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay=none")
        code = 1
    sys.stdout.flush()
    sys.exit(code)
