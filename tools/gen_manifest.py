#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
NA = {}  # property: reason it is not claimed
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "symbolic execution of the compiled LLVM IR of the real code, every branch and assertion decided by z3 (QF_BV), counterexamples replayed natively"
checks = []
for p in props:
    if p not in CHECKS:
        continue
    b = "; ".join((u["bounds"] if isinstance(u["bounds"], str) else u["bounds"]["quick"]) for u in CHECKS[p]["units"].values())
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                   "technique": TECH, "level": "model_checking",
                   "level_note": "Holds for every input within the bounds: " + b + ". Trusts clang's translation to IR (sampled paths are replayed on a g++ build), z3, the engine, and the models of libc and libstdc++ functions listed in DESIGN.md; nothing is claimed outside the bounds."})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check has been built for it yet")} for p in props if p not in CHECKS]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
