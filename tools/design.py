"""DESIGN.md from the rules themselves: python3 tools/design.py"""
import json, os, re, sys, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + "/tools"]
from owv import check
import props


def para(s, indent=""):
    return textwrap.fill(re.sub(r"\s+", " ", s), 170, initial_indent=indent, subsequent_indent=indent, break_long_words=False, break_on_hyphens=False)


def main():
    check.load_rules()
    fixes = {}
    for l in open(f"{ROOT}/known_findings.jsonl"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if m:
            fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    seeds = {}
    for d in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
        seeds.setdefault(m["property"], []).append((d, m["what_it_breaks"]))
    variants = {}
    import importlib.util
    for f in sorted(os.listdir(f"{ROOT}/tools/variants")):
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location("v", f"{ROOT}/tools/variants/{f}")
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            for ps, kind, *_ in m.V:
                for p in ps.split("+") if isinstance(ps, str) else ps:
                    variants.setdefault(p, {"bug": 0, "same": 0})[kind] += 1
    out = [open(f"{ROOT}/tools/design_head.md").read()]
    for p in props.P:
        c = check.CHECKS.get(p["id"])
        if not c:
            continue
        out.append(f"### {p['id']} — {p['title']}\n")
        out.append(para(p["statement"]) + "\n")
        out.append(para(f"*Method:* {c['technique']}.") + "\n")
        out.append(para(f"*How it is decided:* {c['explanation']}") + "\n")
        out.append(para(f"*Bounds and assumptions:* {c['note']}") + "\n")
        out.append(para(f"*Beyond tests:* {p['why_tests_cant']}") + "\n")
        ev = f"{ROOT}/evidence/{p['id']}.json"
        line = []
        if os.path.exists(ev):
            v = json.load(open(ev))
            co = v["coverage"]
            line.append(f"{co['obligations']} obligations in {len(co['rules'])} rules ({', '.join(sorted(co['rules']))}), {co['functions_analysed']} functions, {co['abstract_states']} abstract states, {v['wall_s']:.0f} s")
        n = variants.get(p["id"])
        if n:
            line.append(f"self-test: {n['bug']} breaking and {n['same']} preserving variants")
        out.append(para("*Covered:* " + "; ".join(line) + ".") + "\n")
        for h, t in fixes.get(p["id"], []):
            out.append(para(f"* repaired in {h}: {t}"))
        for s, t in seeds.get(p["id"], []):
            out.append(para(f"* planted bug `{s}` (caught): {t}"))
        out.append("")
    out.append("## 3. Not applicable\n")
    for p in props.P:
        if p["id"] not in check.CHECKS:
            out.append(para(f"* **{p['id']} {p['title']}** — {props.NA.get(p['id'], 'no static rule built yet for this property')}"))
    out.append("")
    out.append(open(f"{ROOT}/tools/design_tail.md").read())
    open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out))


main()
