#!/usr/bin/env python3
"""Regenerates the generated parts of DESIGN.md: what decides each property, and which planted bugs are caught."""
import json, os, re, sys, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table, oracles
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in table.CHECKS:
        out.append(f"Not applicable: {table.NOT_APPLICABLE.get(i, 'no check built')}\n")
        continue
    c = table.CHECKS[i]
    out.append(oracles.ORACLE[i] + "\n")
    for tier in ("quick", "thorough"):
        for t in c[tier]:
            d = " ".join(f"{k}={v}" for k, v in t.get("params", {}).items())
            out.append(f"* {tier}: `{t['harness']}{' ' + d if d else ''}`: {t['bounds']}")
    out.append(f"* outside the bounds: {c['outside']}\n")
gen1 = "\n".join(out)
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['what_it_breaks'].rstrip('.')} | {oracles.CAUGHT.get(n, 'caught by ' + m['property'])} |")
gen2 = "| planted bug | what it breaks | outcome |\n|---|---|---|\n" + "\n".join(rows)
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
for k, g in (("properties", gen1), ("planted", gen2)):
    s = re.sub(rf"(<!-- {k} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + g + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
print([p["id"] for p in props if p["id"] in table.CHECKS and p["id"] not in oracles.ORACLE])
