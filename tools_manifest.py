#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, harness/*.cpp and not_applicable.txt
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = dict(l.rstrip("\n").split("|", 1) for l in open(V + "/not_applicable.txt") if "|" in l)
checks, notapp = [], []
for p in props:
    i = p["id"]; f = f"{V}/harness/{i}.cpp"
    if os.path.exists(f):
        t = open(f).read(); b = " ".join(re.findall(r"//@ bound: (.*)", t)); a = " ".join(re.findall(r"//@ assume: (.*)", t))
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} quick", "thorough_cmd": f"python3 run.py check {i} thorough",
          "technique": "symbolic execution of the instrumented LLVM IR of the real sources, assertions decided by SMT (z3, cvc5) on every path; counterexamples replayed natively",
          "level": "model_checking", "level_note": ("Exhaustive over all symbolic values within the bounds. Bounds: " + b + " Assumes: " + (a or "none") + " Doubles are treated as exact reals.")[:1900]})
    else: notapp.append({"property": i, "reason": na.get(i, "no solver-based check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
  "hooks": {"guard": "F2C_VERIF", "enable": "none needed: no hooks were added to /repo", "source_commits": []}, "not_applicable": notapp}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(notapp), "not applicable")
