#!/usr/bin/env python3
"""Two-way test of the checks: every variant in tools/variants/*.py is applied to a scratch copy of /repo's sources.
'bug' variants must raise the property's VIOLATION (naming an expected key if given), 'same' variants must stay quiet.
usage: tools/selftest.py [PROP ...]   (developer tool; no check reads it)"""
import importlib.util, glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
V = []
for f in sorted(glob.glob(f"{ROOT}/tools/variants/*.py")):
    sp = importlib.util.spec_from_file_location("v", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    V += m.V
# (prop, 'bug'|'same', name, [(file, old, new)...])
V = [v for v in V if not sel or v[0] in sel or v[2] in sel or any(s in v[0].split("+") for s in sel)]


def one(v):
    props, kind, name, edits = v
    d = tempfile.mkdtemp(prefix="owvar-")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "target"))
        for f, *after, old, new in edits:
            # (file, old, new) or (file, anchor, old, new): the first 'old' after the anchor
            p = f"{d}/r/{f}"
            s = open(p).read()
            at = s.find(after[0]) if after else 0
            if at < 0 or s.find(old, at) < 0:
                return v, False, f"edit does not apply: {f}: {(after + [old])[-1][:60]!r} {at}"
            s = s[:at] + s[at:].replace(old, new, 1)
            open(p, "w").write(s)
        ok, out = True, []
        for prop in props.split("+"):
            e = dict(os.environ, OWV_REPO=d + "/r", OWV_EVIDENCE=d)
            r = subprocess.run([sys.executable, "-m", "owv", prop], cwd=ROOT, env=e, capture_output=True, text=True)
            good = (r.returncode == 1 and "VIOLATION" in r.stdout) if kind == "bug" else r.returncode == 0
            keys = re.findall(r"^  \[([^\]]*)\]", r.stdout, re.M)
            if kind == "bug" and good and any(k.startswith(("build", "analysis:")) for k in keys):
                good = False
            if not good:
                ok = False
            out.append(f"{prop} rc={r.returncode} {keys}" + (r.stdout[-700:] + r.stderr[-500:] if not good else ""))
        return v, ok, "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


bad = 0
with ThreadPoolExecutor(6) as ex:
    for v, ok, msg in ex.map(one, V):
        bad += not ok
        print(("ok  " if ok else "FAIL"), v[0], v[1], v[2], msg[:1200] if (not ok or "-v" in sys.argv) else "")
print(len(V), "variants,", bad, "wrong")
sys.exit(bad > 0)
