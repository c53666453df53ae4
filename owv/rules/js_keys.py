"""P35 (and the script side of P32 and P33): crypto.subtle."""
from .. import js
from ..check import check, Missing
from .crypto import ROLES

ALGO = {"Hmac": "HMAC", "Ecdsa": "ECDSA", "Rsa": "RSASSA-PKCS1-v1_5", "Pbkdf2": "PBKDF2"}
NATIVE = {"__nativeHmacSign": ("HMAC", "sign"), "__nativeHmacVerify": ("HMAC", "verify"), "__nativeEcdsaSign": ("ECDSA", "sign"), "__nativeEcdsaVerify": ("ECDSA", "verify"),
          "__nativeRsaSign": ("RSASSA-PKCS1-v1_5", "sign"), "__nativeRsaVerify": ("RSASSA-PKCS1-v1_5", "verify"), "__nativePbkdf2DeriveBits": ("PBKDF2", "deriveBits")}
GENERATE, DIGEST = "__nativeEcdsaGenerateKey", "__nativeDigest"
OPS = ("sign", "verify", "deriveBits")
FORMATS = {"HMAC": ("raw",), "PBKDF2": ("raw",), "ECDSA": ("raw", "pkcs8"), "RSASSA-PKCS1-v1_5": ("raw", "spki", "pkcs8")}
PRIVATE = {"pkcs8"}
FIXED_HASH = {"ECDSA": "SHA-256"}      # algorithms whose native takes no hash name
C = lambda s: ("c", s)
BYTES = ("ArrayBuffer", "Uint8Array")


def obj(st, name, props=None, items=None):
    o = ("obj", "Array" if items is not None else "Object", ("given", name))
    if items is not None:
        st.heap[(o, "$items")] = tuple(items)
    for k, v in (props or {}).items():
        st.heap[(o, k)] = v
    return o


def request(st, how, name, hash=None, extra=None):
    """an algorithm as the script may give it: by name, as an object, with a hash by name or as an object"""
    if how == "name":
        return C(name)
    p = {"name": C(name)} | (extra or {})
    if hash is not None:
        p["hash"] = C(hash) if how == "object" else obj(st, "hash " + how, {"name": C(hash)})
    return obj(st, "algorithm " + how + name + str(hash), p)


def settled(st, v):
    if v[0] == "obj" and v[1] == "Promise":
        v = st.heap.get((v, "$state"), v)
    return (v[1] == "ok", v[2]) if v[0] == "prom" else (None, v)


def whole(e, st, t, d):
    """t holds exactly the bytes of the argument d"""
    if t == d:
        return e.truth(st, ("inst", d, "Uint8Array")) is True
    if t[0] == "new" and t[1] == "Uint8Array" and len(t[2]) == 1:
        a = t[2][0]
        return a == d and any(e.truth(st, ("inst", d, c)) is True for c in BYTES) or whole(e, st, a, d)
    if t[0] == "new" and t[1] == "Uint8Array" and len(t[2]) == 3:
        f = [x[2] if x[0] == "fld" and x[1] == d else None for x in t[2]]
        return f == ["buffer", "byteOffset", "byteLength"]
    if t[0] == "call" and t[1] == "slice" and (len(t[2]) == 1 or t[2][1:] == (C(0),)):
        a = t[2][0]
        return a == d and any(e.truth(st, ("inst", d, c)) is True for c in BYTES) or whole(e, st, a, d)
    if t[0] == "call" and t[1] in ("Uint8Array.from", "structuredClone"):
        return whole(e, st, t[2][0], d)
    if t[0] == "call" and t[1] == "encode" and len(t[2]) == 2:
        return t[2][1] == d and e.truth(st, ("op", "===", ("typeof", d), C("string"))) is True and t[2][0][0] == "new" and t[2][0][1] == "TextEncoder"
    return False


def copied(e, st, t, d):
    """t does not share memory with the argument d"""
    if t == d:
        return False
    if t[0] == "new" and t[1] == "Uint8Array" and len(t[2]) == 1:
        return e.truth(st, ("inst", t[2][0], "Uint8Array")) is True or copied(e, st, t[2][0], d) or t[2][0][0] == "new"
    if t[0] == "call" and t[1] in ("slice", "encode", "Uint8Array.from", "structuredClone"):
        return True
    return False


class Rule:
    max_join = None

    def __init__(self, names):
        self.names, self.calls = names, []

    def native(self, f):
        return f[2] if f[0] == "fld" and f[2] in self.names else f[1].rsplit(".", 1)[-1] if f[0] == "global" and f[1].rsplit(".", 1)[-1] in self.names else None

    def keep_fact(self, f):
        return True

    def survives(self, e, st, b, f, v):
        return True

    def bumps(self, e, st, callee, args):
        return False

    def alias(self, e, st, base, prop):
        if prop in self.names:
            return ("global", f"crypto.subtle.{prop}")
        if base[0] == "obj" and isinstance(base[1], tuple) and base[1][0] == "class" and isinstance(prop, str) and e.superclass(st, base[1]) is None and e.getter(st, base, prop) is None:
            return js.UNDEF     # a key has the properties the scripts gave it
        return None

    def call(self, e, st, f, this, args, n, out):
        k = self.native(f)
        if k is None:
            return None
        v = ("call", k, tuple(args), (n["id"], e.callpath[-3:]))
        self.calls.append((k, tuple(args), n["id"], st.fork(), v))
        e.fresh(st, v)
        out.append(("throw", ("thrown", n["id"]), st.fork()))
        return [(st, v)]


class Subtle:
    """the functions of crypto.subtle as the setup scripts leave them"""

    def __init__(self, ctx):
        self.ctx, self.w = ctx, js.world(ctx)
        at = {k[0] for k in self.w.base.heap if k[1] in ("importKey", "sign", "verify")}
        if len(at) != 1:
            raise Missing("role:subtle", "the crypto.subtle object is not unique")
        self.o = at.pop()
        self.fns = {}
        for n in ("importKey", "generateKey", "digest") + OPS:
            f = self.w.base.heap.get((self.o, n))
            if f is None or f[0] != "fn":
                raise Missing(f"function:{n}", f"crypto.subtle.{n} is not installed by the setup scripts")
            self.fns[n] = f
        names = set(ROLES)
        used = {x["property"].get("name") for x in self.w.p.nodes if x["type"] == "MemberExpression" and not x["computed"]}
        used |= {x.get("value") for x in self.w.p.nodes if x["type"] == "Literal" and isinstance(x.get("value"), str)}
        for n in names - used:
            raise Missing(f"native:{n}", f"no script calls {n}")
        self.names = names
        self.runs = 0

    def run(self, name, args, st=None):
        r = Rule(self.names)
        e = self.w.engine_for(r)
        ex = js.explore(self.ctx, e, self.fns[name], f"crypto.subtle.{name}", self.o, args, st)
        self.runs += 1
        return e, r.calls, ex

    def start(self):
        return self.w.base.fork()

    def line(self, nid):
        return self.w.p.line(nid)


def given_bytes(st, name, kind):
    d = ("arg", name)
    for c in BYTES:
        st.facts[("inst", d, c)] = c == kind
    st.facts[("op", "===", ("typeof", d), C("string"))] = False
    st.facts[("nullish", d)] = False
    return d


def obtained(S, usages):
    """every kind of key a script can get hold of, with these usages:
       (what it is, algorithm, private/public/secret, hash, key term, state, {operation: the bytes it stands for})"""
    out = []
    for how in ("name", "object", "nested"):
        for algo in ALGO.values():
            for hash in (None, "SHA-384", "SHA-256") if how != "name" and algo in ("HMAC", "RSASSA-PKCS1-v1_5") else (None,):
                if how == "nested" and hash is None:
                    continue
                for fmt in ("raw", "spki", "pkcs8", "jwk"):
                    for kind in BYTES:
                        st = S.start()
                        d = given_bytes(st, "keyData", kind)
                        a = request(st, how, algo, hash)
                        e, calls, ex = S.run("importKey", [C(fmt), d, a, ("b", False), obj(st, "usages", items=[C(u) for u in usages])], st)
                        what = f"importKey({fmt}, {kind}, {algo} {how}{' ' + hash if hash else ''})"
                        for k, v, s in ex:
                            ok, key = settled(s, v) if k == "return" else (False, None)
                            out.append((what, algo, fmt, kind, hash or "SHA-256", ok, key, s, e, a, d))
    return out


def judge(S, ctx, rule_ids, e, op, calls, ex, req, key, usages, what, want):
    """the natives an operation reaches, given the request's and the key's algorithm"""
    algo, khash, material, rhash = key
    reached = 0
    for k, args, nid, st, v in calls:
        where = S.line(nid)
        a, nop = NATIVE.get(k, (None, None))
        if a is None:
            ctx.require(False, "operation", f"{op}:{k}", f"{what}: {op} calls {k}", where)
            continue
        if "P35" in rule_ids:
            ctx.require(a == req, "requested-algorithm", f"{op}:{k}", f"{what}: {op} with {req} is computed by {k}", where)
            ctx.require(a == algo, "key-algorithm", f"{op}:{k}", f"{what}: a key that was made for {algo} is used as key material by {k}", where)
            ctx.require(nop == op, "operation", f"{op}:{k}", f"{what}: {op} calls {k}", where)
            ctx.require(op in usages, "permitted", f"{op}:{k}", f"{what}: the key permits {list(usages)}, yet {k} is called", where)
        if a != req or a != algo or nop != op or op not in usages:
            continue
        reached += 1
        roles = ROLES[k]
        ctx.require(len(args) == len(roles), "arguments", f"{k}:count", f"{what}: {k} is called with {len(args)} arguments", where)
        if len(args) != len(roles):
            continue
        if "P35" in rule_ids:
            ctx.require(material(e, st, args[roles["key"]]), "key-material", f"{op}:{k}", f"{what}: {k} is given {js.show(args[roles['key']])} as key instead of the bytes of the key", where)
        if "P33" in rule_ids or "P32" in rule_ids and op == "verify":
            for r in ("data", "signature"):
                if r in roles:
                    ctx.require(whole(e, st, args[roles[r]], ("arg", r)), "script-inputs", f"{k}:{r}", f"{what}: {k} is given {js.show(args[roles[r]])} instead of exactly the {r}", where)
        if "P33" in rule_ids:
            if "salt" in roles:
                ctx.require(whole(e, st, args[roles["salt"]], ("arg", "salt")), "script-inputs", f"{k}:salt", f"{what}: {k} is given {js.show(args[roles['salt']])} instead of exactly the salt", where)
                for r in ("iterations", "length"):
                    ctx.require(args[roles[r]] == ("arg", r), "script-inputs", f"{k}:{r}", f"{what}: {k} is given {js.show(args[roles[r]])} instead of the {r}", where)
            h = rhash if a == "PBKDF2" else khash
            if "name" in roles:
                ctx.require(args[roles["name"]] == C(h), "script-names", f"{k}:name", f"{what}: {k} computes with {js.show(args[roles['name']])} where {h} was named", where)
            elif rhash is not None:
                ctx.require(rhash == FIXED_HASH.get(a), "script-names", f"{k}:name", f"{what}: {k} computes with {FIXED_HASH.get(a)} where {rhash} was named", where)
    mine = [v for k, a, n, s, v in calls]
    good = 0
    for k, v, s in ex:
        ok, r = settled(s, v) if k == "return" else (False, None)
        if ok is False:
            continue
        here = S.line(S.fns[op][1])
        if "P35" in rule_ids and not mine:
            ctx.require(False, "key-algorithm" if algo != req else "permitted", f"{op}:without", f"{what}: {op} succeeds with {js.show(r)} without any computation", here)
        if op == "verify" and "P32" in rule_ids:
            fine = r == js.FALSE or r in mine
            ctx.require(fine, "script-closed", f"verify:{req}", f"{what}: verify resolves with {js.show(r)}, which is not what the native reported", here)
        elif op != "verify" and "P33" in rule_ids:
            fine = r in mine
            ctx.require(fine, "script-output", f"{op}:{req}", f"{what}: {op} resolves with {js.show(r)}, which is not what the native computed", here)
            if fine:
                ctx.require(e.truth(s, r) is True, "script-failure", f"{op}:{req}", f"{what}: {op} resolves although the native computed nothing", here)
        good += r in mine or r[0] == "op" and r[2] in mine and r[3] == js.TRUE
    if "P35" in rule_ids or want:
        ctx.require(bool(reached and good) or not want, "can-succeed", f"{op}:{req}", f"{what}: {op} with a matching key that permits it never succeeds", S.line(S.fns[op][1]))
    return reached


def operate(S, ctx, ids, key, st0, op, req, how, rhash, algo, khash, usages, what, material):
    st = st0.fork()
    d, sig = given_bytes(st, "data", "ArrayBuffer"), given_bytes(st, "signature", "Uint8Array")
    n = 0
    for kd, ks in (("ArrayBuffer", "Uint8Array"), ("Uint8Array", "ArrayBuffer")):
        st = st0.fork()
        d, sig, salt = given_bytes(st, "data", kd), given_bytes(st, "signature", ks), given_bytes(st, "salt", kd)
        a = request(st, how, req, rhash, {"salt": salt, "iterations": ("arg", "iterations")} if op == "deriveBits" else None)
        args = {"sign": [a, key, d], "verify": [a, key, sig, d], "deriveBits": [a, key, ("arg", "length")]}[op]
        e, calls, ex = S.run(op, args, st)
        able = {"HMAC": ("sign", "verify"), "PBKDF2": ("deriveBits",)}.get(algo, (material[0],) if isinstance(material, tuple) else ("sign", "verify"))
        m = material[1] if isinstance(material, tuple) else material
        want = req == algo and op in usages and op in able and (algo not in FIXED_HASH or rhash in (None, FIXED_HASH[algo])) and not (op == "deriveBits" and (how == "name" or rhash is None))
        w = f"{what} then {op}({req} {how}{' ' + rhash if rhash else ''})"
        n += judge(S, ctx, ids, e, op, calls, ex, req, (algo, khash, m, rhash), usages, w, want)
    return n


def matrix(ctx, ids, full):
    """every kind of key x operation x requested algorithm"""
    S = Subtle(ctx)
    reached = nkeys = 0
    sets = ((), ("sign",), ("verify",), ("deriveBits",), ("deriveKey", "wrapKey"), ("sign", "verify"), ("sign", "verify", "deriveBits", "encrypt")) if full else (("sign", "verify", "deriveBits"),)
    for usages in sets:
        made = {}
        for what, algo, fmt, kind, hash, ok, key, s, e, a, d in obtained(S, usages):
            if not ok:
                continue
            nkeys += 1
            if "P35" in ids:
                fixed(S, ctx, e, s, key, algo, hash, fmt, a, d, what)
            made.setdefault((what,), (key, s, algo, hash, fmt, kind, d))
        if "P35" in ids:
            for algo, fs in FORMATS.items():
                for fmt in fs:
                    ctx.require(any(m[2] == algo and m[4] == fmt for m in made.values()), "can-succeed", f"importKey:{algo}:{fmt}", f"importKey never succeeds for {algo} in format {fmt}", S.line(S.fns["importKey"][1]))
        for (what,), (key, s, algo, hash, fmt, kind, d) in made.items():
            if kind != "ArrayBuffer" or not full and hash == "SHA-256" and "SHA-256" in what:
                continue
            mat = lambda e, st, t, d=d: whole(e, st, t, d)
            if fmt in PRIVATE:
                mat = ("sign", mat)
            elif algo in ("ECDSA", "RSASSA-PKCS1-v1_5"):
                mat = ("verify", mat)
            for op in OPS:
                if op in ("sign", "verify") and "P32" in ids and "P33" not in ids and op == "sign":
                    continue
                for req in ALGO.values():
                    if not full and req != algo:
                        continue
                    for how, rhash in (("name", None), ("object", None), ("object", "SHA-256"), ("nested", "SHA-512")):
                        if full and req != algo and (rhash not in (None, "SHA-256") or rhash and op != "deriveBits"):
                            continue
                        reached += operate(S, ctx, ids, key, s, op, req, how, rhash, algo, hash, usages, f"{what} for {list(usages)}", mat)
        # generated pairs
        st = S.start()
        a = request(st, "object", "ECDSA", None, {"namedCurve": C("P-256")})
        e, calls, ex = S.run("generateKey", [a, ("b", True), obj(st, "usages", items=[C(u) for u in usages])], st)
        pairs = 0
        for k, v, s in ex:
            ok, pair = settled(s, v) if k == "return" else (False, None)
            if not ok:
                continue
            pairs += 1
            res = [c[4] for c in calls if c[0] == GENERATE]
            for part in ("privateKey", "publicKey"):
                key = s.heap.get((pair, part)) if pair[0] == "obj" else None
                ctx.require(key is not None and key[0] in ("obj", "new", "typed"), "pair", part, f"generateKey resolves with {js.show(pair)}, which has no {part}", S.line(S.fns["generateKey"][1]))
                if key is None:
                    continue

                def mat(e, st, t, part=part):
                    half = "publicKey" if op == "verify" else "privateKey"
                    f = lambda x: x[0] == "fld" and x[1] in res and x[2] == half
                    while t[0] == "new" and t[1] == "Uint8Array" and len(t[2]) == 1 or t[0] == "call" and t[1] in ("slice", "Uint8Array.from", "structuredClone") and len(t[2]) == 1:
                        t = t[2][0]
                    return f(t)
                for op in OPS:
                    for req in ALGO.values():
                        if not full and req != "ECDSA":
                            continue
                        # the private half may verify with the public half it carries
                        can = tuple(u for u in usages if u == ("sign" if part == "privateKey" else "verify"))
                        if part == "privateKey" and "verify" in usages:
                            can += ("verify",)
                        for how, rhash in (("name", None), ("object", "SHA-256"), ("object", "SHA-512")):
                            reached += operate(S, ctx, ids, key, s, op, req, how, rhash, "ECDSA", None, can, f"generateKey(ECDSA) for {list(usages)}, {part}", ("sign" if part == "privateKey" else "verify", mat))
        ctx.require(pairs > 0, "can-succeed", "generateKey", "generateKey never succeeds", S.line(S.fns["generateKey"][1]))
    ctx.counts["scenarios explored"] = S.runs
    ctx.counts["kinds of keys"] = nkeys
    ctx.floor("native calls judged", reached, 40 if full else 12)
    return S


def fixed(S, ctx, e, s, key, algo, hash, fmt, a, d, what):
    """a key that importKey hands out has the algorithm it was imported for, for good"""
    where = S.line(S.fns["importKey"][1])
    alg = e.read_prop(s, key, "algorithm")
    own = alg[0] == "obj" and alg != a
    ctx.require(own, "fixed-algorithm", f"own:{algo}", f"{what}: the key's algorithm is {js.show(alg)}, which the script can still change", where)
    ctx.require(e.read_prop(s, alg, "name") == C(algo), "fixed-algorithm", f"name:{algo}", f"{what}: the key's algorithm is named {js.show(e.read_prop(s, alg, 'name'))}", where)
    if algo in ("HMAC", "RSASSA-PKCS1-v1_5"):
        h = e.read_prop(s, alg, "hash")
        own = h[0] == "c" or h[0] == "obj" and "given" not in str(h[2])
        ctx.require(own, "fixed-algorithm", f"hash-own:{algo}", f"{what}: the key's hash is {js.show(h)}, which the script can still change", where)
        n = h if h[0] == "c" else e.read_prop(s, h, "name")
        ctx.require(n == C(hash), "fixed-algorithm", f"hash:{algo}", f"{what}: the key's hash is {js.show(n)} instead of {hash}", where)
    us = e.read_prop(s, key, "usages")
    ctx.require("given" not in str(us[2] if us[0] == "obj" else us), "fixed-usages", algo, f"{what}: the key's usages are the caller's own array", where)
    mats = [v for (b, k), v in s.heap.items() if b == key and whole(e, s, v, d)]
    ctx.require(bool(mats), "fixed-material", algo, f"{what}: no part of the key holds exactly the imported bytes", where)
    for v in mats:
        ctx.require(copied(e, s, v, d), "fixed-material", f"copy:{algo}", f"{what}: the key keeps the caller's own buffer ({js.show(v)}): changing it changes the key", where)
    t = e.read_prop(s, key, "type")
    want = "secret" if algo in ("HMAC", "PBKDF2") else "private" if fmt in PRIVATE else "public"
    ctx.require(t == C(want), "fixed-type", f"{algo}:{fmt}", f"{what}: the key's type is {js.show(t)}", where)


@check("P35", "static analysis: abstract interpretation of the embedded crypto scripts over the complete table of key kinds, operations and requested algorithms",
       "The key object's fields are not overwritten by the script (they are plain properties); the natives behave as their names say (P32, P33); algorithm objects have no accessors.")
def p35(ctx):
    """importKey and generateKey are explored for every algorithm, key format, way of naming the algorithm and hash, kind of buffer and set of usages; each key that can come out is judged (its
    algorithm, hash, usages and bytes are its own, and the named ones) and then handed to sign, verify and deriveBits for every requested algorithm. On every path the native function that
    is reached must be the one of the requested algorithm and of the key's own, for that very operation, permitted by the key's usages, and given exactly the key's bytes; with no native
    reached the promise must not be fulfilled, and a matching key with the right usage must be able to succeed."""
    matrix(ctx, {"P35"}, True)


def script_side(ctx, pid):
    """P32 / P33: what the scripts hand to the natives and hand back"""
    return matrix(ctx, {pid}, False)


def digest(ctx):
    """P33: crypto.subtle.digest"""
    S = Subtle(ctx)
    n = 0
    for how in ("name", "object"):
        for kd in BYTES:
            for name in ("SHA-1", "SHA-256", "sha-512", "MD5"):
                st = S.start()
                d = given_bytes(st, "data", kd)
                e, calls, ex = S.run("digest", [request(st, how, name), d], st)
                what = f"digest({name} {how}, {kd})"
                for k, args, nid, s, v in calls:
                    n += 1
                    ok = k == DIGEST and len(args) == 2
                    ctx.require(ok, "script-inputs", "digest:native", f"{what} calls {k} with {len(args)} arguments", S.line(nid))
                    if ok:
                        ctx.require(args[0] == C(name) or args[0][0] == "c" and args[0][1].upper() == name.upper(), "script-names", "digest", f"{what} computes {js.show(args[0])}", S.line(nid))
                        ctx.require(whole(e, s, args[1], d), "script-inputs", "digest:data", f"{what}: the native is given {js.show(args[1])} instead of exactly the data", S.line(nid))
                mine = [c[4] for c in calls]
                good = 0
                for k, v, s in ex:
                    ok, r = settled(s, v) if k == "return" else (False, None)
                    if ok is False:
                        continue
                    ctx.require(r in mine and e.truth(s, r) is True, "script-output", "digest", f"{what} resolves with {js.show(r)}, which is not a digest that was computed", S.line(S.fns["digest"][1]))
                    good += 1
                ctx.require(good > 0 or name == "MD5", "can-succeed", "digest", f"{what} never succeeds", S.line(S.fns["digest"][1]))
    ctx.floor("digest calls judged", n, 8)
