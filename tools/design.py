#!/usr/bin/env python3
"""Writes DESIGN.md: text of tools/design_head.md and design_tail.md, tables from the harness list, seeded/ and tools/catch.txt."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
exec(open(os.path.join(T, "design_props.py")).read())
hs = {}
for d in ("symx", "symxw"):
    b = os.path.join(V, ".build", d, "release", "symx")
    for l in subprocess.run([b, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        p, n, t, s = l.split("\t")
        if d == "symx" or p == "C30":
            hs.setdefault(p, []).append((n, int(t), s))
o = open(os.path.join(T, "design_head.md")).read()
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    o += f"\n### {p['id']} {p['title']}\n\n{D[p['id']]}\n\n"
    g = {}
    for n, t, s in hs.get(p["id"], []):
        g.setdefault((t, s), []).append(n)
    for (t, s), ns in g.items():
        o += f"* `{'`, `'.join(ns)}`{ {0: '', 1: ' (thorough)', 2: ' (quick)', 3: ' (replay)'}[t]}: {s}\n"
o += "\n" + open(os.path.join(T, "design_tail.md")).read()
# catch table
c = {}
f = os.path.join(T, "catch.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.rstrip("\n").split("\t")
        c[w[0]] = w[1:]
o += "\n## 5. Planted bugs and the checks that catch them\n\nMeasured with the quick tier (`tools/catch.txt`).\n\n| bug | property | caught by | what it breaks |\n|---|---|---|---|\n"
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    w = c.get(s, ["not measured"])
    o += f"| {s} | {m['property']} | {w[0]} | {m['what_it_breaks'].replace('|', '/')} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(o)
