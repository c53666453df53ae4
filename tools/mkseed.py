#!/usr/bin/env python3
"""Planted bugs: tools/mkseed.py [-n] [ID...] writes /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms each one:
builds, stable tests pass, demo 0 without and nonzero with the patch; then says whether the property's check catches it.
(developer tool; no check reads it)"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    dry = "-n" in sys.argv
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    if sh("git", "-C", R, "status", "--porcelain", "-uno").stdout.strip():
        sys.exit("/repo is dirty")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for f in sorted(glob.glob(f"{ROOT}/tools/seeds/*.py")):
        id = os.path.basename(f)[:-3]
        if sel and id not in sel:
            continue
        sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        d = f"{ROOT}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        try:
            for p, old, new in m.EDITS:
                s = open(f"{R}/{p}").read()
                assert s.count(old) == 1, (id, p, s.count(old), old[:50])
                open(f"{R}/{p}", "w").write(s.replace(old, new))
            open(f"{d}/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
        if hasattr(m, "DEMO"):
            open(f"{d}/demo.rs", "w").write(m.DEMO)
            shutil.copy(f"{ROOT}/tools/seedlib/demo.sh", d)
            for l in m.LIBS:
                shutil.copy(f"{ROOT}/tools/seedlib/{l}", d)
        else:
            for n, t in m.FILES.items():
                if t is None:
                    shutil.copy(f"{ROOT}/tools/seedlib/{n}", d)
                else:
                    open(f"{d}/{n}", "w").write(t)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=m.PROPERTY, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(f"{d}/meta.json", "w"), indent=1)
        if dry:
            continue
        t = tempfile.mkdtemp()
        shutil.copytree(d, t + "/s", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        clean = [sh("bash", t + "/s/demo.sh", cwd=R).returncode for _ in range(2)]
        a = sh("git", "-C", R, "apply", f"{d}/patch.diff")
        try:
            b = sh("bash", "/opt/vp/build.sh", cwd=R)
            sh("bash", "/opt/vp/test.sh", t + "/o.json", cwd=R)
            o = json.load(open(t + "/o.json"))
            passed = set(o.get("passed", o.get("pass", [])))
            bug = sh("bash", t + "/s/demo.sh", cwd=R)
            c = sh(sys.executable, "-m", "owv", m.PROPERTY, cwd=ROOT, env=dict(os.environ, OWV_EVIDENCE=t))
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
            shutil.rmtree(t, ignore_errors=True)
        good = clean == [0, 0] and a.returncode == 0 and b.returncode == 0 and stable <= passed and bug.returncode not in (0, 8, 9)
        print("OK  " if good else "BAD ", id, f"clean={clean} apply={a.returncode} build={b.returncode} tests={len(stable - passed)} missing demo={bug.returncode}",
              "CAUGHT" if c.returncode == 1 else f"MISSED({c.returncode})", "" if good else (b.stderr[-600:] + bug.stdout[-600:]), flush=True)


main()
