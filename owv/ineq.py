"""Linear integer inequalities over terms: is a set of facts contradictory?  (Fourier-Motzkin with integer tightening of strict
comparisons; sound for "contradictory", incomplete otherwise.)"""
from fractions import Fraction
from .rlib import lin, ladd


def geq(a, b=None, k=0):
    """a - b + k >= 0"""
    d = ladd(dict(a), b or {}, -1)
    if k:
        d = ladd(d, {None: k})
    return d


def from_fact(t, v, L=lin):
    """the inequalities a comparison term gives when it is known to be v; None if it is not a comparison"""
    while t[0] == "un" and t[1] == "Not":
        t, v = t[2], not v
    if t[0] != "op" or t[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") or not isinstance(v, bool):
        return None
    op = t[1]
    if not v:
        op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
    a, b = L(t[2]), L(t[3])
    if op == "Lt":
        return [geq(b, a, -1)]
    if op == "Le":
        return [geq(b, a)]
    if op == "Gt":
        return [geq(a, b, -1)]
    if op == "Ge":
        return [geq(a, b)]
    if op == "Eq":
        return [geq(a, b), geq(b, a)]
    return []


def contradictory(ineqs, limit=4000):
    """every inequality is {symbol: coefficient, None: constant} >= 0"""
    cur = [dict(i) for i in ineqs]
    syms = {s for i in cur for s in i if s is not None}
    for s in sorted(syms, key=repr):
        pos = [i for i in cur if i.get(s, 0) > 0]
        neg = [i for i in cur if i.get(s, 0) < 0]
        rest = [i for i in cur if not i.get(s, 0)]
        for p in pos:
            for n in neg:
                a, b = -n[s], p[s]
                c = {}
                for src, k in ((p, a), (n, b)):
                    for x, v in src.items():
                        c[x] = c.get(x, 0) + Fraction(v) * k
                c = {x: v for x, v in c.items() if v or x is None}
                c.pop(s, None)
                rest.append(c)
        cur, seen = [], set()
        for i in rest:
            k = frozenset((x, v) for x, v in i.items())
            if k not in seen:
                seen.add(k)
                cur.append(i)
        if len(cur) > limit:
            return False
        if any(not any(x is not None for x in i) and i.get(None, 0) < 0 for i in cur):
            return True
    return any(not any(x is not None for x in i) and i.get(None, 0) < 0 for i in cur)


def holds(facts, goal):
    """facts imply goal >= 0 (over the integers)"""
    neg = {s: -c for s, c in goal.items()}
    neg[None] = neg.get(None, 0) - 1
    return contradictory(list(facts) + [neg])
