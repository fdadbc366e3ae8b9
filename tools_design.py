#!/usr/bin/env python3
# Regenerates DESIGN.md from design_head.md, properties.jsonl, harness/*.cpp, design_oracles.txt, seeded/*/meta.json, seeded_results.txt and design_tail.md
import json, os, re
V = os.path.dirname(os.path.abspath(__file__)); rd = lambda f: open(V + "/" + f).read() if os.path.exists(V + "/" + f) else ""
orc = dict(l.split("|", 1) for l in rd("design_oracles.txt").splitlines() if "|" in l)
na = dict(l.split("|", 1) for l in rd("not_applicable.txt").splitlines() if "|" in l)
seeds = {}
for s in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(f"{V}/seeded/{s}/meta.json")); seeds.setdefault(m["property"], []).append((s, m))
res = dict(l.split("|", 1) for l in rd("seeded_results.txt").splitlines() if "|" in l)
o = rd("design_head.md") + "\n## 5. Properties, one by one\n\n"
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l); i = p["id"]; f = f"{V}/harness/{i}.cpp"
    o += f"### {i} — {p['title']}\n\n"
    if not os.path.exists(f): o += f"*Not applicable*: {na.get(i, '').strip()}\n\n"; continue
    t = open(f).read(); g = lambda k: " ".join(re.findall(r"//@ %s: (.*)" % k, t))
    hs = re.findall(r"SX_HARNESS\((\w+)\)", t)
    o += f"- Oracle: {orc.get(i, '').strip()}\n- Code encoded: {', '.join('`' + x + '`' for x in ' '.join(re.findall(r'//@ src:(.*)', t)).split()[-6:])} (and the sources these need)\n- Harnesses: {len(hs)} ({', '.join(hs)})\n- Bounds: {g('bound')}\n"
    if g("assume"): o += f"- Assumed: {g('assume')}\n"
    if i in seeds: o += "- Planted bugs: " + "; ".join(f"{s} ({m['needs']}) — {res.get(s, 'not run').strip()}" for s, m in seeds[i]) + "\n"
    o += "\n"
open(V + "/DESIGN.md", "w").write(o + rd("design_tail.md"))
