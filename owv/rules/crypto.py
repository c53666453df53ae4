"""P30, P32, P33, P34: what the crypto natives and the buffer helper do with the script's bytes."""
import re
from .. import flow, mir
from ..check import check, Missing
from ..rlib import *

GET = "v8::FunctionCallbackArguments::get"
BYTELEN = re.compile(r"v8::\w+::(byte_length)$|v8::typed_array::length$")
COPYIN = re.compile(r"v8::array_buffer_view::copy_contents(_uninit)?$")
RVSET = re.compile(r"v8::ReturnValue::set(_\w+)?$")
PURE_ON_BUF = re.compile(r"(copy_contents(_uninit)?|::len|::is_empty|::as_ptr|::byte_length|std::ops::Index::index)$")
# argument positions of each native, as the scripts call them: role -> index
ROLES = {"__nativeDigest": dict(name=0, data=1), "__nativeHmacSign": dict(name=0, key=1, data=2),
         "__nativeHmacVerify": dict(name=0, key=1, signature=2, data=3), "__nativeEcdsaSign": dict(key=0, data=1),
         "__nativeEcdsaVerify": dict(key=0, signature=1, data=2), "__nativeRsaSign": dict(name=0, key=1, data=2),
         "__nativeRsaVerify": dict(name=0, key=1, signature=2, data=3),
         "__nativePbkdf2DeriveBits": dict(name=0, key=1, salt=2, iterations=3, length=4), "__nativeEcdsaGenerateKey": {}}
HASH = re.compile(r"SHA(1|256|384|512)(?!\d)")


def natives(p):
    """bodies the engine can call with script arguments"""
    out = []
    for b in p.bodies.values():
        b.parse()
        if any(re.search(r"FunctionCallbackArguments|FunctionCallbackInfo", b.arg_types[a]) for a in b.args) and not re.match(r"&(?!\{)|&mut v8::FunctionCallback", b.arg_types[b.args[0]].replace("&mut v8::PinnedRef", "")):
            out.append(b)
    return out


def is_native(b):
    ts = [b.arg_types[a] for a in b.args]
    return sum("FunctionCallbackArguments" in t and not t.startswith("&") for t in ts) == 1 and any("v8::ReturnValue" in t and not t.startswith("&") for t in ts)


def registered(ctx, p, among=None):
    """{script-visible name: native body}, from the setup functions' own paths"""
    out = {}
    setups = {b.name: b for b, k, t in callers(p, r"^v8::(function::|Function::|FunctionBuilder::)\w*(new|build|builder)")}
    for b in setups.values():
        if among and not among(b):
            continue
        e = ctx.paths(p, b, Rec(lambda e, st, k, n, a, r: k == "call" and n.endswith("::set") and len(a) == 4, inline=lambda x: not is_native(x)))
        for kind, st, r in e.exits:
            for ev in st.trace:
                key, val = ev[2][2], ev[2][3]
                names = [t[2][-1][1] for t in flow.walk(key) if isinstance(t, tuple) and len(t) == 4 and t[0] == "call" and t[1] == "v8::string::new" and t[2][-1][0] == "c"]
                if len(names) != 1:
                    continue
                for t in flow.walk(val):
                    if isinstance(t, tuple) and len(t) == 5 and t[0] == "agg" and t[1].startswith("{closure"):
                        nb = e.body_of_type(st, t[1])
                        cands = [x for x in p.bodies.values() if x.args and x.name.startswith(b.name + "::{closure") and t[1].rstrip("}") in x.arg_types[x.args[0]]]
                        nb = cands[0] if len(cands) == 1 else nb
                        if nb is not None and is_native(nb):
                            out[names[0]] = nb
                    if isinstance(t, tuple) and len(t) == 2 and t[0] == "fn" and isinstance(t[1], str):
                        nb = p.by_pretty.get(mir.strip_generics(t[1]))
                        if nb is not None and is_native(nb):
                            out[names[0]] = nb
    return out


def srcs(t):
    """indices of the script arguments a term is computed from"""
    return {x[2][1][1] for x in flow.walk(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x[1] == GET and len(x[2]) == 2 and x[2][1][0] == "c"}


def unfull(t):
    while True:
        if t[0] == "ptr":
            t = t[1]
        elif t[0] == "call" and t[1] in ("std::ops::Index::index", "std::vec::Vec::as_ptr", "std::slice::as_ptr", "core::slice::as_ptr", "std::vec::Vec::as_mut_ptr") and (len(t[2]) == 1 or "RangeFull" in str(t[2][1])):
            t = t[2][0]
        else:
            return t


def whole(trace, upto, t):
    """index of the argument whose complete bytes buffer t holds at trace position upto"""
    t = unfull(t)
    if t[0] == "call" and t[1] == "std::vec::from_elem":
        n = t[2][1]
    else:
        return None
    if n[0] != "call" or not BYTELEN.search(n[1]):
        return None
    view = n[2][0]
    filled = False
    for ev in trace[:upto]:
        if ev[0] != "call":
            continue
        hit = [i for i, a in enumerate(ev[2]) if same(unfull(a), t)]
        if not hit:
            continue
        if COPYIN.search(ev[1]):
            if not same(place_of(ev[2][0]), place_of(view)):
                return None
            filled = True
        elif not PURE_ON_BUF.search(ev[1]) and not ev[1].startswith("ring::"):
            return None
    s = srcs(view)
    return s.pop() if filled and len(s) == 1 else None


def consumed(t):
    """does the path to `sign`/`verify` use the value unchanged"""
    return t[0] != "mut"


class Path:
    """one exit of a native: what it computed and what it handed back"""

    def __init__(self, e, st):
        self.e, self.st, self.tr = e, st, st.trace
        self.set = None
        self.thrown = False
        for i, ev in enumerate(self.tr):
            if ev[0] == "call" and RVSET.search(ev[1]):
                self.set = (ev[1].split("::")[-1], ev[2][1] if len(ev[2]) > 1 else None)
            elif ev[0] == "call" and ev[1].endswith("::throw_exception"):
                self.thrown = True

    def calls(self, rx):
        r = re.compile(rx)
        return [(i, ev) for i, ev in enumerate(self.tr) if ev[0] == "call" and r.search(ev[1])]

    def value(self):
        """('none',) | ('bool', term) | ('value', term)"""
        if self.set is None or self.set[0] in ("set_undefined", "set_null"):
            return ("none",)
        if self.set[0] == "set_bool":
            return ("bool", self.set[1])
        v = self.set[1]
        if v[0] == "call" and v[1] in ("v8::undefined", "v8::null", "v8::primitives::undefined", "v8::primitives::null"):
            return ("none",)
        if v[0] == "call" and v[1] == "v8::primitives::new" and len(v[2]) == 2:
            return ("bool", v[2][1])
        return ("value", v)

    def good(self, res):
        """the result res is known to be Ok / non-empty on this path: True / False / None"""
        d = self.st.facts.get(("disc", res))
        if d is None:
            for f, v in self.st.facts.items():
                if isinstance(f, tuple) and f[0] == "disc" and same(f[1], res):
                    d = v
        return None if d is None else d == 0

    def names(self):
        """[(literal, term, holds)] of the comparisons with string literals on the path"""
        out = []
        for f, v in self.st.facts.items():
            if not isinstance(f, tuple):
                continue
            if f[0] == "op" and f[1] in ("Eq", "Ne") and isinstance(v, bool):
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if a[0] == "c" and isinstance(a[1], str) and srcs(b):
                        out.append((a[1], b, v == (f[1] == "Eq")))
            elif f[0] == "call" and f[1].endswith("::eq_ignore_ascii_case"):
                a, b = f[2][0], f[2][1]
                if b[0] == "c":
                    out.append((b[1], a, bool(v)))
                elif a[0] == "c":
                    out.append((a[1], b, bool(v)))
        return out


def explore(ctx, p, b):
    R = Rec(lambda e, st, k, n, a, r: k == "call", keep=lambda f: True, limit=2)
    e = ctx.paths(p, b, R)
    return e, [Path(e, st) for k, st, r in e.exits if k == "return"]


def algo_of(t):
    """name of the algorithm constant a term denotes"""
    t = place_of(t)
    while t[0] in ("ptr", "fld"):
        t = t[1]
    if t[0] in ("static", "fn", "const") and isinstance(t[1], str):
        return t[1].split("::")[-1]
    return None


PRIMS = r"^ring::(digest::(digest|Context::finish)|hmac::(sign|verify)|signature::\w*(Unparsed|PublicKey)\w*::verify|signature::.*::verify|.*::(sign|verify)$|pbkdf2::(derive|verify))"


def inputs(P, i, ev):
    """role -> (term, whole-argument index) and the algorithm constants of a primitive call"""
    n, a = ev[1], ev[2]
    last = n.split("::")[-1]
    w = lambda t: whole(P.tr, i, t)
    new = lambda t, rx: next((x for x in flow.walk(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and re.search(rx, x[1])), None)
    c = new(a[0], r"ring::(digest|hmac)::Context::(new|with_key)$") if last in ("finish", "sign") and a else None
    if c is not None:
        ups = [(j, u) for j, u in enumerate(P.tr[:i]) if u[0] == "call" and re.search(r"ring::(digest|hmac)::Context::update$", u[1]) and has(u[2][0], c)]
        data = whole(P.tr, ups[0][0], ups[0][1][2][1]) if len(ups) == 1 else None
        if c[1].endswith("digest::Context::new"):
            return dict(data=data), [algo_of(c[2][0])]
        k = new(c, r"ring::hmac::Key::new$")
        return (dict(key=w(k[2][1]), data=data), [algo_of(k[2][0])]) if k else (dict(key=None), [])
    if n.startswith("ring::digest::"):
        return dict(data=w(a[1])), [algo_of(a[0])]
    if n.startswith("ring::hmac::"):
        k = new(a[0], r"ring::hmac::Key::new$")
        if k is None:
            return dict(key=None), []
        r = dict(key=w(k[2][1]), data=w(a[1]))
        if last == "verify":
            r["signature"] = w(a[2])
        return r, [algo_of(k[2][0])]
    if n.startswith("ring::pbkdf2::"):
        r = dict(key=w(a[3]), salt=w(a[2]))
        r["iterations"] = a[1]
        r["out"] = a[4]
        return r, [algo_of(a[0])]
    if last == "verify":
        k = new(a[0], r"UnparsedPublicKey::new$")
        if k is None:
            return dict(key=None), []
        return dict(key=w(k[2][1]), data=w(a[1]), signature=w(a[2])), [algo_of(k[2][0])]
    if last == "sign":
        k = new(a[0], r"(EcdsaKeyPair|KeyPair)::from_\w+$")
        if k is None:
            return dict(key=None), []
        if "from_der" in k[1] or (len(a) == 5):
            return dict(key=w(k[2][0]), data=w(a[3]), out=a[4]), [algo_of(a[1])]
        return dict(key=w(k[2][1]), data=w(a[2])), [algo_of(k[2][0])]
    return {}, []


def crypto_natives(ctx, p):
    reg = registered(ctx, p, lambda b: "::crypto::" in b.pretty)
    for n in ROLES:
        if n not in reg:
            raise Missing(f"native:{n}", f"no native function registered under {n}")
    return reg


def name_term(t):
    """the complete name the script gave, upper- or lower-cased"""
    while t[0] == "call" and re.search(r"::(to_uppercase|to_lowercase|to_ascii_uppercase|to_ascii_lowercase|to_rust_string_lossy|to_string|to_rust_cow_lossy|as_str|to_detail_string)$", t[1]) or t[0] in ("fld", "ptr"):
        t = t[2][0] if t[0] == "call" else t[1]
    return t[0] == "call" and t[1] == GET


def check_named(ctx, rule, name, b, P, algos):
    """the algorithm in use is the one the name selects"""
    hold = [(lit, t) for lit, t, v in P.names() if v]
    want = ROLES[name].get("name")
    for a in algos:
        if a is None:
            ctx.require(False, rule, f"{name}:algorithm", "the algorithm is not one of the library's named constants on some path", b.pretty)
            continue
        if want is None:
            continue
        m = HASH.search(a)
        ok = len(hold) == 1 and m and name_term(hold[0][1]) and hold[0][0].upper().replace("_", "-") == "SHA-" + m.group(1) and srcs(hold[0][1]) == {want}
        ctx.require(ok, rule, f"{name}:{hold[0][0] if hold else 'unknown'}",
                    f"the name {[h[0] for h in hold] or 'that matches nothing'} selects {a}", b.pretty)
        return hold[0][0].upper() if hold else None
    return None


@check("P32", "path-sensitive value-flow analysis of the verify natives' MIR and of the scripts that call them", "ring's verify functions decide correctly; V8's byte_length/copy_contents copy a view's bytes")
def p32(ctx):
    """Every path through every native that reports a signature or MAC as valid is enumerated on rustc's MIR.  The value handed to the script is
    followed back: it is true only when ring's verification call on that path returned Ok, and that call's key, data and signature are the
    complete, unmodified bytes of the arguments with that role; every other path hands back false or nothing.  The embedded scripts that call the natives are
    explored for every kind of key: verify hands over exactly the signature and data it was given, and resolves with what the native reported or false."""
    p = ctx.prog("scope")
    reg = crypto_natives(ctx, p)
    n = 0
    for name, b in sorted(reg.items()):
        e, paths = explore(ctx, p, b)
        verifies = name.lower().endswith("verify")
        prim = r"::verify$|constant_time::verify_slices_are_equal$"
        if not verifies and not any(P.calls(prim) for P in paths):
            continue
        n += 1
        accepted = 0
        for P in paths:
            v = P.value()
            ver = [(i, ev) for i, ev in P.calls(prim) if ev[1].startswith("ring::")]
            roles = ROLES.get(name, {})
            for i, ev in ver:
                got, al = inputs(P, i, ev)
                for r in ("key", "data", "signature"):
                    ctx.require(r in got and got[r] is not None and got[r] == roles.get(r), "inputs", f"{name}:{r}",
                                f"the {r} given to {ev[1]} is not exactly the bytes of argument {roles.get(r)}", b.pretty)
            if v[0] == "none":
                ctx.require(not any(P.good(ev[3]) for i, ev in ver), "accepts", name, "a confirmed signature is not reported", b.pretty)
                ctx.require(True, "closed", name, "")
                continue
            if v[0] != "bool":
                ctx.require(False, "closed", name, f"hands back {flow.show(v[1])}, which is neither a boolean nor undefined", b.pretty)
                continue
            t = v[1]
            tv = P.e.truth(P.st, t)
            if tv is False:
                ctx.require(True, "closed", name, "")
                ctx.require(not any(P.good(ev[3]) for i, ev in ver), "accepts", name, "a confirmed signature is reported as invalid", b.pretty)
                continue
            if tv is True:
                ok = bool(ver) and all(P.good(ev[3]) for i, ev in ver)
            else:
                ok = len(ver) == 1 and confirms(P, t, ver[0][1][3])
            accepted += ok
            ctx.require(ok, "closed", name, f"reports valid on the path where {flow.show_facts(P.st)[:300]} without ring's confirmation (value {flow.show(t)})", b.pretty)
        ctx.require(accepted > 0, "accepts", name + ":ever", "no path reports a valid signature", b.pretty)
    ctx.floor("verify natives", n, 3)
    from . import js_keys
    js_keys.script_side(ctx, "P32")


def confirms(P, t, res):
    """the boolean t is true exactly when the result res is Ok"""
    exact = next((x for x in flow.walk(t) if isinstance(x, tuple) and x and x[0] == "call" and same(x, res)), None)
    if exact is None:
        return False
    v = []
    for i in (0, 1):
        s = P.e.assume_disc(P.st, exact, i)
        v.append(P.e.truth(s, t) if s is not None else None)
    return v == [True, False]


def out_value(P, t):
    """the buffer / bytes inside the array buffer handed back"""
    for x in flow.walk(t):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x[1].endswith("::with_backing_store"):
            y = x[2][-1]
            while y[0] == "ptr" or (y[0] == "call" and re.search(r"new_backing_store_from_\w+$|make_shared$", y[1])):
                y = y[1] if y[0] == "ptr" else y[2][0]
            return y
    return None


@check("P33", "path-sensitive value-flow analysis of the crypto natives' MIR and of the scripts that call them; table agreement across natives",
       "ring's constants implement the algorithm they are named after; type checking keeps constants in their family")
def p33(ctx):
    """On every path of every crypto native the algorithm constant given to ring is matched with the string comparisons that selected it: the name
    and the constant must denote the same hash, a name that matches nothing must not reach ring, and signing and verifying natives of one family must
    accept the same names, padding and curve.  The data, key, salt, iteration count and output length given to ring must be the complete bytes
    (or the value) of the argument with that role, and what is handed back must be ring's complete output, and nothing when ring failed.  The embedded
    scripts that call the natives are explored for every kind of key and way of naming the algorithm: the named hash, the exact data, salt, iteration count and length
    reach the native, and the promise is fulfilled only with what the native computed."""
    p = ctx.prog("scope")
    reg = crypto_natives(ctx, p)
    tables, schemes, nprim, folds = {}, {}, 0, {}
    for name, b in sorted(reg.items()):
        if name not in ROLES:
            continue
        e, paths = explore(ctx, p, b)
        roles = ROLES[name]
        for P in paths:
            prims = [(i, ev) for i, ev in P.calls(PRIMS) if ev[1].startswith("ring::")]
            gens = P.calls(r"^ring::.*::(generate_pkcs8|generate)$")
            v = P.value()
            for i, ev in gens + P.calls(r"^ring::.*from_pkcs8$"):
                a = algo_of(ev[2][0])
                if a:
                    schemes.setdefault("Ecdsa", {}).setdefault(a.replace("_SIGNING", ""), name)
            for i, ev in prims:
                nprim += 1
                got, al = inputs(P, i, ev)
                lit = check_named(ctx, "names", name, b, P, al)
                if lit:
                    t = next(t for l, t, v in P.names() if v)
                    fold = ("upper" if re.search(r"to_(ascii_)?uppercase", str(t)) else "lower" if re.search(r"to_(ascii_)?lowercase", str(t)) else "ignore" if any(isinstance(f, tuple) and f[0] == "call" and f[1].endswith("eq_ignore_ascii_case") and v2 for f, v2 in P.st.facts.items()) else "exact")
                    raw = next(l for l, t, v in P.names() if v)
                    ctx.require(fold in ("ignore", "exact") or raw == (raw.upper() if fold == "upper" else raw.lower()), "names", f"{name}:{raw}:case", f"the folded name can never equal {raw}", b.pretty)
                    folds.setdefault("exact" if fold == "exact" else "any case", set()).add(name)
                    tables.setdefault(name, set()).add(lit)
                if al and al[0] and not HASH.fullmatch(al[0]):
                    fam = re.sub(r"_?2048_8192_?|_?SIGNING|_?SHA(1|256|384|512)(?!\d)(_FOR_LEGACY_USE_ONLY)?", "" if "roles" and "name" in roles else r"_SHA\1", al[0]).strip("_")
                    f = re.match(r"__native([A-Z][a-z]+)", name).group(1)
                    schemes.setdefault(f, {}).setdefault(al[0].replace("_SIGNING", "") if "name" not in roles else fam, name)
                for r in ("key", "data", "signature", "salt"):
                    if r in got or r in roles:
                        ctx.require(got.get(r) is not None and got.get(r) == roles.get(r), "inputs", f"{name}:{r}", f"the {r} given to {ev[1]} is not exactly the bytes of argument {roles.get(r)}", b.pretty)
                if "iterations" in roles:
                    ctx.require(iterations_ok(P, got["iterations"], roles["iterations"]), "inputs", f"{name}:iterations",
                                f"the iteration count {flow.show(got['iterations'])} is not the script's count", b.pretty)
                    o = unfull(got["out"])
                    while o[0] == "mut":
                        o = o[1]
                    ln = o[2][1] if o[0] == "call" and o[1] == "std::vec::from_elem" else None
                    vals = [] if ln is None else [evaluate(ln, {x: n for x in flow.walk(ln) if is_number(x, roles["length"])}) for n in (0, 8, 128, 256, 1000)]
                    ctx.require(vals == [0, 1, 16, 32, 125], "inputs", f"{name}:length", f"the output length {flow.show(ln) if ln else '?'} is not the requested number of bits", b.pretty)
                last = ev[1].split("::")[-1]
                if last == "verify":
                    continue
                if "out" in got and "iterations" not in roles:
                    o = base_of(unfull(got["out"]))
                    ok = o[0] == "call" and o[1] == "std::vec::from_elem" and o[2][1][0] == "call" and o[2][1][1].endswith("modulus_len") and same(key_source(o[2][1]), key_source(ev[2][0]))
                    ctx.require(ok, "inputs", f"{name}:room", f"the signature's buffer {flow.show(o)[:100]} does not have the length of the key's modulus", b.pretty)
                # what is handed back
                fallible = P.good(ev[3]) is not None
                if v[0] == "value":
                    ctx.require(P.good(ev[3]) is not False, "failure", name, f"a value is handed back although {ev[1]} failed", b.pretty)
                    inner = out_value(P, v[1])
                    src = got.get("out", ev[3])
                    if inner is None:
                        # the empty-input branch of the helper: an empty output is an empty buffer
                        empt = [x for x in P.st.facts.items() if isinstance(x[0], tuple) and x[0][0] == "call" and x[0][1].endswith("is_empty") and x[1] is True]
                        ctx.require(bool(empt) or v[1][1] == "v8::array_buffer::new", "output", name, f"hands back {flow.show(v[1])[:120]} instead of ring's output", b.pretty)
                    else:
                        ctx.require(same(unfull(base_of(inner)), unfull(base_of(src))) or has(unfull(inner), ev[3]) and plain(inner, ev[3]), "output", name,
                                    f"hands back {flow.show(inner)[:160]} instead of ring's complete output", b.pretty)
                elif v[0] == "none" and fallible and P.good(ev[3]):
                    ctx.require(False, "output", name, f"{ev[1]} succeeded but nothing is handed back", b.pretty)
            if not prims and not gens and v[0] == "value":
                ctx.require(False, "output", name, f"hands back {flow.show(v[1])[:120]} without computing anything", b.pretty)
            if not prims and v[0] == "bool":
                ctx.require(P.e.truth(P.st, v[1]) is False, "names", f"{name}:refused", "an unknown name is not refused", b.pretty)
    ctx.floor("primitive calls on paths", nprim, 20)
    for fam in ("Hmac", "Rsa"):
        s, v = tables.get(f"__native{fam}Sign", set()), tables.get(f"__native{fam}Verify", set())
        ctx.require(s == v and s, "pairing", fam, f"signing accepts {sorted(s)} and verifying accepts {sorted(v)}", "runtime::crypto")
    for f, d in schemes.items():
        if f in ("Ecdsa", "Rsa"):
            ctx.require(len(d) == 1, "pairing", f"{f}:scheme", f"different schemes within one family: {d}", "runtime::crypto")
    ctx.require(len(folds) == 1, "names", "case", f"names are compared differently: {folds}", "runtime::crypto")
    for f in ("__nativeDigest", "__nativeHmacSign", "__nativePbkdf2DeriveBits", "__nativeRsaSign"):
        ctx.require("SHA-256" in tables.get(f, ()), "names", f"{f}:table", f"{f} does not know SHA-256: {sorted(tables.get(f, ()))}", "runtime::crypto")
    ctx.sample({k: sorted(v) for k, v in tables.items()})
    from . import js_keys
    js_keys.script_side(ctx, "P33")
    js_keys.digest(ctx)


def key_source(t):
    return next((x for x in flow.walk(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and re.search(r"KeyPair::from_\w+$", x[1])), None)


def base_of(t):
    while t[0] in ("mut", "ptr"):
        t = t[1]
    return t


def plain(t, res):
    """t is res looked at through as_ref / payload steps only"""
    t = unfull(t)
    while True:
        if same(t, res):
            return True
        if t[0] == "fld":
            t = t[1]
        elif t[0] in ("mut", "ptr"):
            t = t[1]
        elif t[0] == "call" and len(t[2]) == 1 and re.search(r"::(as_ref|to_vec|into_vec|deref|clone|to_owned|into_boxed_slice)$", t[1]):
            t = t[2][0]
        else:
            return False


def is_number(x, i):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == "Some.0" and x[1][0] == "call" and x[1][1].endswith("_value") and srcs(x[1]) == {i}


def iterations_ok(P, t, idx):
    """NonZero of the script's count; a zero count may become one"""
    c = [x for x in flow.walk(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x[1].endswith("NonZero::new")]
    t2 = t
    while t2[0] == "fld":
        t2 = t2[1]
    if t2[0] == "call" and t2[1].endswith("NonZero::new"):
        a = t2[2][0]
        if is_number(a, idx):
            return True
        # the fallback is only for a zero count
        if a == ("c", 1):
            return zero_count(P, idx)
        return a[0] == "call" and re.search(r"::max$", a[1]) is not None and any(is_number(x, idx) for x in a[2]) and ("c", 1) in a[2]
    if str(t2[-1]).endswith("::MIN") and "NonZero" in str(t2):
        return zero_count(P, idx)
    if t2[0] == "call" and re.search(r"::max$", t2[1]) and any(is_number(a, idx) for a in t2[2]) and ("c", 1) in t2[2]:
        return True
    return False


def zero_count(P, idx):
    for f, v in P.st.facts.items():
        if isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "call" and f[1][1].endswith("NonZero::new") and is_number(f[1][2][0], idx) and v == 0:
            return True
        if is_number(f, idx) and zero(P.st, f):
            return True
    return False


@check("P34", "path-sensitive value-flow analysis of the random natives' MIR", "ring's SystemRandom and uuid's v4 draw from the operating system")
def p34(ctx):
    """Every path of the random natives is enumerated on rustc's MIR.  A path that hands the script's array back must have had ring's SystemRandom fill a
    buffer of exactly the view's byte length, with the result checked, and must have copied that whole buffer to the view's own offset (or the view has
    no memory); a generator failure or an array that cannot be filled raises an exception.  randomUUID returns a fresh v4 identifier, and every ring
    operation that draws randomness is given SystemRandom."""
    p = ctx.prog("scope")
    reg = registered(ctx, p, lambda b: "::crypto::" in b.pretty)
    for n in ("getRandomValues", "randomUUID"):
        if n not in reg:
            raise Missing(f"native:{n}", f"no native function registered under {n}")
    b = reg["getRandomValues"]
    e, paths = explore(ctx, p, b)
    filled = 0
    for P in paths:
        v = P.value()
        argc0 = any(isinstance(f, tuple) and f[0] == "op" and "length" in str(f) and ("c", 1) in f and v2 is (f[1] == "Lt") for f, v2 in P.st.facts.items() if f[0] == "op" and f[1] in ("Lt", "Ge")) or not P.calls(r"FunctionCallbackArguments::get$")
        fills = P.calls(r"^ring::.*SecureRandom.*::fill$")
        okfill = [ev for i, ev in fills if P.good(ev[3])]
        if v[0] == "none":
            if fills and okfill and not P.thrown:
                ctx.require(False, "reports", "dropped", "the filled array is not handed back", b.pretty)
            elif not argc0:
                ctx.require(P.thrown, "reports", "silent", f"an array is left unfilled without an exception on the path {flow.show_facts(P.st)[:200]}", b.pretty)
            continue
        t = v[1] if v[0] == "value" else ("c", v)
        ctx.require(srcs(t) == {0} and t[0] == "call" and t[1] == GET, "fills", "value", f"hands back {flow.show(t)[:120]} instead of the script's array", b.pretty)
        if P.thrown:
            continue
        good, why = False, "no successful SystemRandom fill on the path"
        lens = {x for f in P.st.facts if isinstance(f, tuple) for x in (f, f[2] if f[0] == "op" else None) if isinstance(x, tuple) and view_len(x)}
        if any(zero(P.st, x) for x in lens):
            continue    # nothing to fill
        for ev in okfill:
            rng, buf = ev[2][0], ev[2][1]
            if "SystemRandom::new" not in str(base_of(place_of(rng))):
                why = f"filled from {flow.show(rng)}"
                continue
            good, why = delivered(P, ev, buf)
            if good:
                break
        filled += good
        ctx.require(good, "fills", "bytes", f"{why}; path {flow.show_facts(P.st)[-260:]}", b.pretty)
    ctx.require(filled > 0, "fills", "ever", "no path fills the array", b.pretty)
    u = reg["randomUUID"]
    e, paths = explore(ctx, p, u)
    for P in paths:
        v = P.value()
        if v[0] == "none" and (P.thrown or any(isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "call" and f[1][1] == "v8::string::new" and x == 0 for f, x in P.st.facts.items())):
            continue        # the string could not be made
        t = v[1] if v[0] == "value" else None
        ok = t is not None
        if ok:
            leaves = {x[1] for x in flow.walk(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "call"}
            gen = [x for x in leaves if re.search(r"::new_v4$", x)]
            other = [x for x in leaves if not re.search(r"::new_v4$|^v8::string::new|::(to_string|hyphenated|as_hyphenated|encode_lower|format|new_display|as_simple|from|into)$|fmt", x)]
            ok = len(gen) == 1 and not other and "static" not in str([x for x in flow.walk(t) if isinstance(x, tuple) and x and x[0] == "static"])
        ctx.require(ok, "uuid", "fresh", f"randomUUID hands back {flow.show(t) if t else 'nothing'}", u.pretty)
    n = 0
    for name, b in reg.items():
        if name in ("getRandomValues", "randomUUID"):
            continue
        e, paths = explore(ctx, p, b)
        for P in paths:
            for i, ev in P.calls(r"^ring::.*(generate_pkcs8|KeyPair::sign|from_pkcs8|::fill)$"):
                rngs = [a for a in ev[2] if re.search(r"[Rr]and", str(base_of(place_of(a)))[:400]) and base_of(place_of(a))[0] == "call" and base_of(place_of(a))[1].startswith("ring::rand")]
                n += 1
                if re.search(r"from_pkcs8$", ev[1]) and len(ev[2]) < 3:
                    continue
                ctx.require(len(rngs) >= 1 and all(base_of(place_of(a))[1] == "ring::rand::SystemRandom::new" for a in rngs), "generator", name, f"{ev[1]} draws from {[flow.show(a) for a in ev[2]][:4]}", b.pretty)
    ctx.floor("library calls that draw randomness", n, 3)


def delivered(P, fill, buf):
    """the filled bytes reach exactly the view's memory: (bool, reason)"""
    tr = P.tr
    i = tr.index(fill)
    t = unfull(buf)
    t0 = base_of(t)
    facts = P.st.facts
    nomem = any(isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "call" and re.search(r"::data$|array_buffer_view::buffer$", f[1][1]) and srcs(f[1]) == {0} and v == 0 for f, v in facts.items())
    # in place: a slice over the view's own memory
    if t0[0] == "call" and re.search(r"from_raw_parts_mut$", t0[1]):
        return (own_memory(t0[2][0]) and view_len(t0[2][1]), "the slice that is filled is not the view's memory")
    if not (t0[0] == "call" and t0[1] == "std::vec::from_elem" and view_len(t0[2][1])):
        return False, f"the filled buffer {flow.show(t0)[:120]} does not have the view's byte length"
    if nomem:
        return True, ""
    for j, ev in enumerate(tr):
        if j > i and ev[0] == "call":
            hit = [k for k, a in enumerate(ev[2]) if same(base_of(unfull(a)), t0)]
            if not hit:
                continue
            if re.search(r"::copy_nonoverlapping$|^std::(ptr|intrinsics)::copy$", ev[1]):
                src, dst, n = ev[2]
                if hit[0] != 0:
                    return False, "the buffer is overwritten"
                return (own_memory(dst) and view_len(n), "the random bytes are not copied to the whole of the view's memory")
            if re.search(r"::(copy|clone)_from_slice$", ev[1]) and hit[0] == 1:
                d = base_of(unfull(ev[2][0]))
                return (d[0] == "call" and d[1].endswith("from_raw_parts_mut") and own_memory(d[2][0]) and view_len(d[2][1]), "the random bytes are not copied to the whole of the view's memory")
            if re.search(r"copy_to(_nonoverlapping)?$", ev[1]):
                return (own_memory(ev[2][1]) and view_len(ev[2][2]), "the random bytes are not copied to the whole of the view's memory")
            if re.search(r"copy_from(_nonoverlapping)?$", ev[1]):
                return (own_memory(ev[2][0]) and view_len(ev[2][2]), "the random bytes are not copied to the whole of the view's memory")
            if not PURE_ON_BUF.search(ev[1]):
                return False, f"the random bytes are changed by {ev[1]}"
    return False, "the random bytes are not copied into the array"


def view_len(t, i=0):
    """the byte length of the view given as argument i, or the length of a buffer made that long"""
    t = place_of(t)
    if t[0] == "call" and BYTELEN.search(t[1]) and t[1].endswith("byte_length"):
        return srcs(t) == {i}
    if t[0] == "call" and t[1].endswith("::len"):
        b = base_of(unfull(t[2][0]))
        return b[0] == "call" and b[1] == "std::vec::from_elem" and view_len(b[2][1], i)
    return False


def own_memory(t, i=0):
    """data(backing store of the view's buffer) + the view's offset in bytes"""
    t = place_of(t)
    if t[0] == "call" and t[1] == "v8::array_buffer_view::data":
        return srcs(t) == {i}
    if t[0] == "call" and re.search(r"::(add|offset|byte_add|wrapping_add)$", t[1]) and len(t[2]) == 2:
        base, off = t[2]
        return data_of_view(base, i) and off[0] == "call" and off[1].endswith("byte_offset") and srcs(off) == {i}
    return False


def data_of_view(t, i=0):
    t = place_of(t)
    while t[0] == "fld" or (t[0] == "call" and re.search(r"::(cast|as_ptr)$", t[1])):
        t = t[1] if t[0] == "fld" else t[2][0]
    return t[0] == "call" and re.search(r"::data$", t[1]) and srcs(t) == {i} and ("array_buffer_view::buffer" in str(t) or "array_buffer_view::get_backing_store" in str(t))


WRAP = re.compile(r"::new_backing_store_from_\w+$|::new_rust_allocator$")
RAW = re.compile(r"(^std::(ptr|intrinsics)::(copy|copy_nonoverlapping|write|write_bytes|write_unaligned|write_volatile|swap)$|::(copy_from|copy_from_nonoverlapping|copy_to|copy_to_nonoverlapping|write_bytes)$|::from_raw_parts_mut$)")
HELPER = "v8_helpers::create_array_buffer_from_vec"


@check("P30", "call-graph rule over every function in both configurations; path-sensitive value-flow analysis of raw memory writes",
       "V8 allocates the memory of ArrayBuffer::new inside its sandbox; modules outside the sandbox's build are analysed against stand-in types for openworkers_core")
def p30(ctx):
    """Every function of the library is scanned, with and without the sandbox feature, for calls that turn host memory into script memory: with the feature
    there must be none, without it only the one helper may make them.  The helper's paths are enumerated in both configurations: the buffer it returns must
    hold exactly the vector's bytes.  Every raw memory write into a script buffer must start at the buffer's (or view's) own memory and be bounded by that
    buffer's length."""
    every = ("multiplexing", "ptrcomp", "sandbox", "unsafe-worker-snapshot")
    units = [("scope", ()), ("scope", ("sandbox",)), ("scope", ("ptrcomp",)), ("scope", ("ptrcomp", "sandbox")), ("scope", every)]
    full = []
    for f in ((), ("sandbox",), every):
        try:
            ctx.prog("full", f)
            full.append(("full", f))
        except Exception as x:
            ctx.note(f"modules outside the sandbox's build were not analysed with {f}: {str(x)[:200]}")
    nfun = nraw = 0
    for kind, feats in units + full:
        p = ctx.prog(kind, feats)
        sand = "sandbox" in feats
        nfun += len(p.bodies)
        for b, k, t in callers(p, r"::new_backing_store_from_\w+$"):
            ok = not sand and (b.pretty == HELPER or only_called_by(p, b, HELPER))
            ctx.require(ok, "wrap", f"{b.pretty}", f"{mir.strip_generics(t[2])} hands host memory to the script" + (" in a sandbox build" if sand else " outside the one helper"), b.pretty + (f" line {t[-1][1]}" if t[-1] else ""))
        if kind == "full" and not sand or kind == "scope":
            nraw += raw_writes(ctx, p, feats)
        if kind == "scope":
            helper(ctx, p, sand)
    ctx.counts["configurations"] = len(units) + len(full)
    ctx.floor("functions scanned", nfun, 300)
    ctx.floor("raw writes into script buffers", nraw, 1)


def only_called_by(p, b, name):
    cs = {c.pretty for c, k, t in callers(p, re.escape(b.pretty.split("::")[-1]) + "$") if p.by_pretty.get(mir.strip_generics(t[2])) is b}
    return bool(cs) and cs <= {name}


def helper(ctx, p, sand):
    def cells(e, st, ci):
        if re.search(r"Cell::(set|replace)$", ci.path):
            e.emit(st, ("call", ci.path, tuple(ci.vals), None), 3)
        return None

    e = ctx.paths(p, HELPER, Rec(lambda e, st, k, n, a, r: k == "call", keep=lambda f: True, call=cells))
    b = p.by_pretty[HELPER]
    tag = "sandbox" if sand else "plain"
    for k, st, r in e.exits:
        if k != "return":
            continue
        r = base_of(r)
        empty = any(isinstance(f, tuple) and f[0] == "call" and f[1].endswith("::is_empty") and v is True for f, v in st.facts.items()) or any(isinstance(f, tuple) and zero(st, f) for f in st.facts if f[0] == "call" and f[1].endswith("::len"))
        empty = empty or any(isinstance(f, tuple) and f[0] == "op" and f[2][0] == "call" and f[2][1].endswith("::len") and zero(st, f[2]) for f in st.facts)
        if r[0] == "call" and re.search(r"::with_backing_store$", r[1]):
            y = r[2][-1]
            while y[0] == "ptr" or (y[0] == "call" and re.search(r"new_backing_store_from_\w+$|make_shared$|into$", y[1])):
                y = y[1] if y[0] == "ptr" else y[2][0]
            ctx.require(not sand and y[0] == "arg", "content", f"{tag}:wrapped", f"the buffer wraps {flow.show(y)} instead of the vector's bytes", HELPER)
            continue
        if not (r[0] == "call" and r[1].endswith("array_buffer::new") or r[0] == "call" and r[1].endswith("ArrayBuffer::new")):
            ctx.require(False, "content", f"{tag}:made", f"returns {flow.show(r)[:160]}", HELPER)
            continue
        n = r[2][1]
        if empty:
            ctx.require(n == ("c", 0) or n[0] == "call" and n[1].endswith("::len"), "content", f"{tag}:empty", f"an empty vector becomes a buffer of length {flow.show(n)}", HELPER)
            continue
        okn = n[0] == "call" and n[1].endswith("::len") and base_of(unfull(n[2][0]))[0] == "arg"
        copies = [ev for ev in st.trace if ev[0] == "call" and RAW.search(ev[1])]
        nomem = any(isinstance(f, tuple) and f[0] == "disc" and f[1][0] == "call" and f[1][1].endswith("::data") and v == 0 for f, v in st.facts.items())
        okc = nomem and not copies
        for ev in copies:
            d = ev[2][1] if ev[1].endswith(("copy_nonoverlapping", "::copy")) else ev[2][0]
            s = ev[2][0] if ev[1].endswith(("copy_nonoverlapping", "::copy")) else ev[2][1]
            okc = base_of(unfull(s))[0] == "arg" and has(place_of(d), r) and eqv(ev[2][2], n)
        okc = okc or cellwise(st, r)
        ctx.require(okn and okc, "content", f"{tag}:copied", f"a buffer of length {flow.show(n)} is filled by {[flow.show(ev[2][1])[:60] + ' x ' + flow.show(ev[2][2]) for ev in copies]}", HELPER)


def cellwise(st, r):
    """each cell of the new buffer's store is set from the vector's byte at the same position, by walking both together"""
    zips = [ev for ev in st.trace if ev[0] == "call" and ev[1].endswith("Iterator::zip")]
    if len(zips) != 1:
        return False
    plainly = lambda t: all(re.search(r"::(iter|iter_mut|into_iter|copied|cloned|deref|as_slice|get_backing_store|as_ref|by_ref|new|len)$", x[1]) for x in flow.walk(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x is not r and not same(x, r))
    side = [(base_of(unfull(x)), has(x, r)) for x in zips[0][2]]
    if sorted(x[1] for x in side) != [False, True] or not all(plainly(x) for x in zips[0][2]):
        return False
    cell = "0" if side[0][1] else "1"
    nexts = [ev for ev in st.trace if ev[0] == "call" and ev[1].endswith("Iterator::next")]
    sets = [ev for ev in st.trace if ev[0] == "call" and re.search(r"Cell::(set|replace)$", ev[1])]
    for ev in sets:
        c, v = place_of(ev[2][0]), place_of(ev[2][1])
        if not (c[0] == "fld" and c[2] == cell and v[0] == "fld" and v[2] == ("1" if cell == "0" else "0") and c[1] == v[1]):
            return False
    return len(nexts) >= 1 and (len(nexts) < 2 or len(sets) >= 1)


def raw_writes(ctx, p, feats):
    """raw writes whose destination is script memory, in every function"""
    n = 0
    roots = {}
    for b in {b.name: b for b, k, t in callers(p, RAW.pattern)}.values():
        if b.pretty == HELPER or b.is_coroutine or not any("v8::" in b.locals.get(l, "") for l in b.locals):
            continue
        for x in roots_of(p, b):
            roots[x.name] = x
    for b in roots.values():
        P = ctx.paths(p, b, Rec(lambda e, st, k, nm, a, r: k == "call" and bool(RAW.search(nm)), keep=lambda f: True))
        for k, st, r in P.exits:
            for ev in st.trace:
                last = ev[1].split("::")[-1]
                if last in ("copy_nonoverlapping", "copy") and ev[1].startswith("std::"):
                    d, cnt = ev[2][1], ev[2][2]
                elif last in ("copy_to", "copy_to_nonoverlapping"):
                    d, cnt = ev[2][1], ev[2][2]
                else:
                    d, cnt = ev[2][0], ev[2][-1]
                ds = str(d)
                if "BackingStore::data" not in ds and "array_buffer::data" not in ds and "array_buffer_view::data" not in ds:
                    continue
                n += 1
                ok = any(own_memory(d, i) and view_len(cnt, i) for i in srcs(d)) or bounded(d, cnt)
                ctx.require(ok, "bounds", b.pretty, f"{flow.show(cnt)[:140]} bytes are written at {flow.show(d)[:200]}, which is not bounded by that buffer", b.pretty)
    return n


def roots_of(p, b, seen=()):
    """the functions from which a private helper is judged: its callers, up to the natives"""
    if is_native(b) or b.name in seen or len(seen) > 4:
        return [b]
    cs = {c.name: c for c, k, t in callers(p, re.escape(b.pretty.split("::")[-1]) + "$") if p.by_pretty.get(mir.strip_generics(t[2])) is b and not c.is_coroutine}
    if not cs:
        return [b]
    return [x for c in cs.values() for x in roots_of(p, c, seen + (b.name,))]


def eqv(a, b):
    """equal, reading a length twice"""
    return same(a, b) or a[0] == b[0] == "call" and (a[1] == b[1] or a[1].endswith("::len") and b[1].endswith("::len")) and a[1].endswith(("::len", "byte_length")) and len(a[2]) == len(b[2]) and all(eqv(x, y) for x, y in zip(a[2], b[2]))


def bounded(d, cnt):
    """dst is the start of a whole array buffer's memory and cnt that buffer's byte length"""
    t = place_of(d)
    while t[0] == "fld" or (t[0] == "call" and re.search(r"::(cast|as_ptr|data|get_backing_store)$", t[1])):
        t = t[1] if t[0] == "fld" else t[2][0]
    c = place_of(cnt)
    if t[0] == "call" and t[1].endswith(("array_buffer::new", "ArrayBuffer::new")):
        return eqv(t[2][1], c)
    return c[0] == "call" and BYTELEN.search(c[1]) is not None and (same(place_of(c[2][0]), t) or has(c, t))
