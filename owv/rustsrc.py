"""A small tokenizer for Rust source: enough to find function bodies, impl headers, struct and
enum definitions and string literals without being fooled by comments or literals."""
import re

_TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>(?:b|c)?r(?P<h>\#*)")
 |(?P<str>(?:b|c)?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\]|\\(?:[nrt0\\'"]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w.]*)
 |(?P<p>->|=>|::|.)
''', re.X | re.S)


def tokens(text):
    """[(kind, text, offset)]; kinds: id str raw chr life num p"""
    out, i, n = [], 0, len(text)
    while i < n:
        m = _TOK.match(text, i)
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if m.group("raw"):
            end = text.index('"' + m.group("h"), m.end())
            out.append(("raw", text[m.end():end], i))
            i = end + 1 + len(m.group("h"))
            continue
        if k == "bc":
            depth, j = 1, m.end()
            while depth and j < n:
                if text.startswith("/*", j):
                    depth += 1; j += 2
                elif text.startswith("*/", j):
                    depth -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        if k not in ("ws", "lc"):
            t = m.group()
            if k == "num" and t.endswith("."):
                t = t[:-1]
                out.append((k, t, i)); i += len(t)
                continue
            if k == "num" and ".." in t:
                t = t[:t.index("..")]
                out.append((k, t, i)); i += len(t)
                continue
            out.append((k, t, i))
        i = m.end()
    return out


def match_close(toks, i):
    pairs = {"(": ")", "[": "]", "{": "}"}
    depth = 0
    for j in range(i, len(toks)):
        if toks[j][0] == "p":
            if toks[j][1] in "([{":
                depth += 1
            elif toks[j][1] in ")]}":
                depth -= 1
                if depth == 0:
                    return j
    return len(toks) - 1


def fn_bodies(text):
    toks = tokens(text)
    res = []
    for i, t in enumerate(toks):
        if t[0] == "id" and t[1] == "fn" and i + 1 < len(toks) and toks[i + 1][0] == "id":
            j = i + 2
            while j < len(toks) and not (toks[j][0] == "p" and toks[j][1] in "{;"):
                if toks[j][0] == "p" and toks[j][1] in "([":
                    j = match_close(toks, j)
                j += 1
            if j < len(toks) and toks[j][1] == "{":
                c = match_close(toks, j)
                o, cl = toks[j][2], toks[c][2]
                res.append(dict(name=toks[i + 1][1], open=o, close=cl, line0=text.count("\n", 0, t[2]) + 1,
                                line1=text.count("\n", 0, cl) + 1))
    return res


def _skip_generics(toks, i):
    if i < len(toks) and toks[i][1] == "<":
        d = 0
        while i < len(toks):
            if toks[i][1] == "<":
                d += 1
            elif toks[i][1] == ">":
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
    return i


def _split_top(toks, a, b):
    """Split toks[a:b] at top-level commas (generics aware)."""
    parts, cur, depth, ang = [], [], 0, 0
    for t in toks[a:b]:
        if t[0] == "p":
            if t[1] in "([{":
                depth += 1
            elif t[1] in ")]}":
                depth -= 1
            elif t[1] == "<" and depth == 0:
                ang += 1
            elif t[1] == ">" and depth == 0 and ang:
                ang -= 1
        if t[1] == "," and depth == 0 and ang == 0:
            if cur:
                parts.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        parts.append(cur)
    return parts


def _strip_attrs_vis(p):
    attrs = []
    i = 0
    while i < len(p):
        if p[i][1] == "#":
            j = match_close(p, i + 1)
            attrs.append("".join(t[1] for t in p[i:j + 1]))
            i = j + 1
        elif p[i][1] == "pub":
            i += 1
            if i < len(p) and p[i][1] == "(":
                i = match_close(p, i) + 1
        else:
            break
    return attrs, p[i:]


def _fields_named(toks, a, b):
    out = []
    for p in _split_top(toks, a, b):
        attrs, p = _strip_attrs_vis(p)
        if len(p) >= 3 and p[1][1] == ":":
            out.append((p[0][1], "".join(t[1] if t[0] != "id" else t[1] + " " for t in p[2:]).replace(" ", ""), attrs))
    return out


def _fields_tuple(toks, a, b):
    out = []
    for k, p in enumerate(_split_top(toks, a, b)):
        attrs, p = _strip_attrs_vis(p)
        out.append((str(k), "".join(t[1] for t in p), attrs))
    return out


def type_defs(text):
    """{full::path: {'kind','variants':[(name,[(field,type,attrs)])]}} from (expanded) source."""
    toks = tokens(text)
    defs, stack, i = {}, [], 0
    closes = []
    while i < len(toks):
        k, t, _ = toks[i]
        if k == "id" and t == "mod" and i + 2 < len(toks) and toks[i + 1][0] == "id" and toks[i + 2][1] == "{":
            stack.append(toks[i + 1][1])
            closes.append(match_close(toks, i + 2))
            i += 3
            continue
        if closes and i == closes[-1]:
            closes.pop(); stack.pop()
            i += 1
            continue
        if k == "id" and t in ("struct", "enum", "union") and i + 1 < len(toks) and toks[i + 1][0] == "id":
            name = "::".join(stack + [toks[i + 1][1]])
            j = _skip_generics(toks, i + 2)
            if t in ("struct", "union"):
                while j < len(toks) and toks[j][1] not in "{(;":
                    j += 1
                if toks[j][1] == "{":
                    c = match_close(toks, j)
                    defs[name] = dict(kind=t, variants=[(toks[i + 1][1], _fields_named(toks, j + 1, c))])
                    i = c
                elif toks[j][1] == "(":
                    c = match_close(toks, j)
                    defs[name] = dict(kind=t, variants=[(toks[i + 1][1], _fields_tuple(toks, j + 1, c))])
                    i = c
                else:
                    defs[name] = dict(kind=t, variants=[(toks[i + 1][1], [])])
            else:
                while j < len(toks) and toks[j][1] != "{":
                    j += 1
                c = match_close(toks, j)
                vs = []
                for p in _split_top(toks, j + 1, c):
                    _, p = _strip_attrs_vis(p)
                    if not p:
                        continue
                    if len(p) > 1 and p[1][1] == "{":
                        vs.append((p[0][1], _fields_named(p, 2, match_close(p, 1))))
                    elif len(p) > 1 and p[1][1] == "(":
                        vs.append((p[0][1], _fields_tuple(p, 2, match_close(p, 1))))
                    else:
                        vs.append((p[0][1], []))
                defs[name] = dict(kind="enum", variants=vs)
                i = c
        i += 1
    return defs


def impl_header(text, line, col):
    """Given the span start of an impl (or derive name) return ('Type', 'Trait'|None) or None."""
    off = 0
    for _ in range(line - 1):
        off = text.index("\n", off) + 1
    off += col - 1
    if not re.match(r"(unsafe\s+)?impl\b", text[off:]):
        m = re.match(r"\w+", text[off:])
        return (None, m.group() if m else None)
    end = text.index("{", off)
    toks = tokens(text[off:end])
    i = next(k for k, t in enumerate(toks) if t[1] == "impl") + 1
    i = _skip_generics(toks, i)
    depth, parts, cur = 0, [], []
    for t in toks[i:]:
        if t[1] == "<":
            depth += 1
        elif t[1] == ">":
            depth -= 1
        if depth == 0 and t[0] == "id" and t[1] in ("for", "where"):
            parts.append(cur); cur = []
            if t[1] == "where":
                break
        else:
            cur.append(t)
    else:
        parts.append(cur)
    s = ["".join(t[1] for t in p) for p in parts]
    if len(s) >= 2 and any(t[1] == "for" for t in toks[i:]):
        return (s[1], s[0])
    return (s[0], None)
