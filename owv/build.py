"""Compile /repo's current sources far enough to get rustc's own MIR for every function.

Nothing is executed: rustc type-checks, borrow-checks and elaborates drops; we read the MIR.

Two units:
  scope  the modules that can be built here (same selection as /opt/vp/harness/sync.py)
  full   every module of the library, against /verif/stub/openworkers_core.rs (types only)

External crates come from the rmeta files that the sandbox's build left in
/opt/vp/harness/target (read only).  Output goes to a fresh directory that is removed.
"""
import glob, itertools, os, re, shutil, subprocess, sys, tempfile, atexit

REPO = os.environ.get("OWV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HARNESS = "/opt/vp/harness"
TRIPLE = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
DEPS = ["bytes", "encoding_rs", "futures", "libc", "ring", "serde", "serde_json", "signal_hook",
        "signal_hook_tokio", "tokio", "tokio_stream", "tokio_util", "tracing", "uuid"]
SCOPE = ["async_waiter", "gc", "runtime", "security", "v8_helpers"]
RUNTIME = ["crypto", "stream_manager", "streams", "text_encoding"]

_tmp = []


def scratch():
    d = tempfile.mkdtemp(prefix="owv-")
    _tmp.append(d)
    return d


@atexit.register
def _cleanup():
    for d in _tmp:
        shutil.rmtree(d, ignore_errors=True)


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(RUSTC_BOOTSTRAP="1", RUSTUP_TOOLCHAIN=TOOLCHAIN, RUNTIME_SNAPSHOT_PATH="/nonexistent",
             CARGO_PKG_NAME="openworkers-runtime-v8", CARGO_PKG_VERSION="0.0.0", HOME="/root",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", RUST_BACKTRACE="0")
    return e


def deps_dirs():
    return (f"{HARNESS}/target/{TRIPLE}/debug/deps", f"{HARNESS}/target/debug/deps")


def combos():
    """Candidate (v8, serde_v8, glue_v8, gc_derive) artefacts; the right pairing is found by trying."""
    d, h = deps_dirs()
    v8 = sorted(glob.glob(f"{d}/libv8-*.rmeta"))
    sv = sorted(glob.glob(f"{d}/libserde_v8-*.rmeta"))
    gl = sorted(glob.glob(f"{h}/libglue_v8-*.so"))
    gc = sorted(glob.glob(f"{h}/libopenworkers_runtime_v8_gc_derive-*.so"), key=os.path.getmtime, reverse=True)
    return list(itertools.product(gl[:1], gc[:1], v8, sv))


def base_cmd(combo, features):
    d, h = deps_dirs()
    gl, gc, v8, sv = combo
    cmd = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "openworkers_runtime_v8",
           "--target", TRIPLE, "-L", f"dependency={d}", "-L", f"dependency={h}", "--cap-lints", "allow",
           "--error-format=json", "-Zmir-opt-level=0", "-Ztrim-diagnostic-paths=no"]
    for c in DEPS:
        m = glob.glob(f"{d}/lib{c}-*.rmeta")
        if not m:
            raise BuildError(f"no prebuilt rmeta for {c} in {d}")
        cmd += ["--extern", f"{c}={m[0]}"]
    cmd += ["--extern", f"v8={v8}", "--extern", f"serde_v8={sv}", "--extern", f"glue_v8={gl}", "--extern", f"gc_derive={gc}"]
    for f in features:
        cmd += ["--cfg", f'feature="{f}"']
    return cmd


def mirror_full(out):
    shutil.copytree(f"{REPO}/src", f"{out}/src")
    p = f"{out}/src/icudtl.dat"
    if not os.path.exists(p):
        open(p, "wb").write(b"\0" * 64)


def _modules(text):
    return re.findall(r"^(?:pub(?:\([a-z]+\))? )?mod (\w+);", text, re.M)


def mirror_scope(out):
    """Same selection as the sandbox's own build (sync.py): what is really compiled and tested here."""
    shutil.copytree(f"{REPO}/src", f"{out}/src")
    text = open(f"{REPO}/src/lib.rs").read()
    gone_mods = set(_modules(text)) - set(SCOPE)
    cfg = r"(?:^#\[cfg\([^\n]*\)\]\n)?"
    text = re.sub(cfg + r"^pub use (?:crate::)?(\w+)::[^;]*;\n",
                  lambda m: "" if m[1] in gone_mods or m[1] in ("openworkers_core", "runtime") else m[0], text, flags=re.M)
    text = re.sub(cfg + r"^(?:pub(?:\([a-z]+\))? )?mod (\w+);\n", lambda m: "" if m[1] in gone_mods else m[0], text, flags=re.M)
    inner = " ".join(f"pub mod {m};" for m in RUNTIME)
    text = text.replace("pub mod runtime;", f"pub mod runtime {{ {inner} }}")
    open(f"{out}/src/lib.rs", "w").write(text)


def _json_errors(stderr):
    import json
    errs = []
    for line in stderr.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error":
                spans = [(s["file_name"], s["line_start"], s["column_start"]) for s in m.get("spans", []) if s.get("is_primary")]
                spans += [(s["file_name"], s["line_start"], s["column_start"]) for s in m.get("spans", []) if not s.get("is_primary")]
                errs.append((m.get("message", ""), spans))
        elif line.startswith("error"):
            errs.append((line, []))
    return errs


class Unit:
    def __init__(self, kind, dir, mirdir, expanded, unanalysed):
        self.kind, self.dir, self.mirdir, self.expanded, self.unanalysed = kind, dir, mirdir, expanded, unanalysed


def _core(out):
    d, h = deps_dirs()
    os.makedirs(f"{out}/core")
    cmd = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "openworkers_core", "--target", TRIPLE,
           "-L", f"dependency={d}", "-L", f"dependency={h}", "-Zalways-encode-mir", "--emit=metadata",
           "--out-dir", f"{out}/core", f"{VERIF}/stub/openworkers_core.rs", "--cap-lints", "allow"]
    for c in ["bytes", "serde", "serde_json", "tokio"]:
        cmd += ["--extern", f"{c}={glob.glob(f'{d}/lib{c}-*.rmeta')[0]}"]
    r = subprocess.run(cmd, env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("stub openworkers_core: " + r.stderr[-800:])


def _fn_spans(path):
    """(start_line, end_line, body_open_offset, body_close_offset, name) of each fn in a source file."""
    from . import rustsrc
    return rustsrc.fn_bodies(open(path).read())


def _blank_fn(dir, span, done):
    """Replace the innermost function body around an error by `unimplemented!()`."""
    f, line, _ = span
    if f.startswith("/"):
        return None
    path = f"{dir}/{f}"
    text = open(path).read()
    from . import rustsrc
    best = None
    for b in rustsrc.fn_bodies(text):
        if b["line0"] <= line <= b["line1"] and (best is None or b["open"] > best["open"]):
            best = b
    if best is None or (f, best["name"], best["line0"]) in done:
        return None
    keep_nl = "\n" * text.count("\n", best["open"], best["close"])
    new = text[:best["open"] + 1] + " ::std::unimplemented!() " + keep_nl + text[best["close"]:]
    open(path, "w").write(new)
    done.add((f, best["name"], best["line0"]))
    return f"{f}:{best['name']}"


def build(kind="full", features=()):
    out = scratch()
    (mirror_full if kind == "full" else mirror_scope)(out)
    extra = []
    if kind == "full":
        _core(out)
        extra = ["--extern", f"openworkers_core={out}/core/libopenworkers_core.rmeta"]
    cands = combos()
    if not cands:
        raise BuildError("no prebuilt v8 crates under " + HARNESS)
    # pick the pairing by type-checking; identical sources, so the fewest errors wins
    unanalysed, done, errs = [], set(), []
    combo = None
    best = None
    for c in cands:
        r = subprocess.run(base_cmd(c, features) + extra + ["src/lib.rs", "--emit=metadata", "--out-dir", f"{out}/o"],
                           cwd=out, env=_env(), capture_output=True, text=True)
        e = _json_errors(r.stderr)
        if r.returncode == 0:
            combo, errs = c, []
            break
        if best is None or len(e) < best[0]:
            best = (len(e), c, e)
    if combo is None:
        combo, errs = best[1], best[2]
    for _ in range(8):
        mirdir = f"{out}/mir{_}"
        r = subprocess.run(base_cmd(combo, features) + extra +
                           ["src/lib.rs", "--emit=mir", "--out-dir", f"{out}/o", "-Zdump-mir=ElaborateDrops",
                            f"-Zdump-mir-dir={mirdir}", "-Zmir-include-spans=on"],
                           cwd=out, env=_env(), capture_output=True, text=True)
        if r.returncode == 0:
            break
        errs = _json_errors(r.stderr)
        progress = False
        for msg, spans in errs:
            for s in spans:
                n = _blank_fn(out, s, done)
                if n:
                    unanalysed.append(f"{n} ({msg[:100]})")
                    progress = True
                    break
        if not progress:
            raise BuildError(f"{kind}: " + "; ".join(f"{m} @{s[:1]}" for m, s in errs[:4]) + ("" if errs else r.stderr[-400:]))
    else:
        raise BuildError(f"{kind}: too many errors")
    x = subprocess.run(base_cmd(combo, features) + extra + ["src/lib.rs", "-Zunpretty=expanded"],
                       cwd=out, env=_env(), capture_output=True, text=True)
    return Unit(kind, out, mirdir, x.stdout, unanalysed)


def derive_macro(out):
    """The derive macro, compiled from /repo's current source."""
    d, h = deps_dirs()
    cand = [sorted(glob.glob(f"{h}/lib{c}-*.rlib")) for c in ("syn", "quote", "proc_macro2")]
    src = f"{REPO}/gc-derive/src/lib.rs"
    err = ""
    for syn, quote, pm in itertools.product(*cand):
        r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "proc-macro", "--crate-name", "gc_derive", "-L", f"dependency={h}",
                            "--extern", f"syn={syn}", "--extern", f"quote={quote}", "--extern", f"proc_macro2={pm}", "--extern", "proc_macro",
                            "--cap-lints", "allow", "--error-format=json", "-C", "opt-level=0", "--out-dir", out, src], env=_env(), capture_output=True, text=True)
        if r.returncode == 0:
            return glob.glob(f"{out}/libgc_derive*.so")[0]
        e = [m for m, s in _json_errors(r.stderr)]
        if not any("E0460" in m or "E0464" in m or "found possibly newer version" in m or "multiple candidates" in m or "colliding" in m for m in e):
            err = "; ".join(e)[:400] or r.stderr[-400:]
    raise BuildError("gc-derive does not compile: " + err)


def witness(text, macro, mir=True):
    """Type-check a witness crate that uses the derive macro; returns (Unit, errors)."""
    out = scratch()
    os.makedirs(f"{out}/src")
    open(f"{out}/src/lib.rs", "w").write(text)
    cmd = ["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "witness", "--extern", f"gc_derive={macro}", "--cap-lints", "allow",
           "--error-format=json", "-Zmir-opt-level=0", "-Ztrim-diagnostic-paths=no", "src/lib.rs"]
    dump = ["--emit=mir", "--out-dir", f"{out}/o", "-Zdump-mir=ElaborateDrops", f"-Zdump-mir-dir={out}/mir", "-Zmir-include-spans=on"] if mir else ["--emit=metadata", "--out-dir", f"{out}/o"]
    r = subprocess.run(cmd + dump, cwd=out, env=_env(), capture_output=True, text=True)
    if r.returncode:
        return None, _json_errors(r.stderr) or [(r.stderr[-300:], [])]
    if not mir:
        return True, []
    x = subprocess.run(cmd + ["-Zunpretty=expanded"], cwd=out, env=_env(), capture_output=True, text=True)
    return Unit("witness", out, f"{out}/mir", x.stdout, []), []
