#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist (each check module names its technique and what it assures)."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
NA = {"C32": "the self-compilation needs the musl headers the bootstrap script fetches from the network; and the quantifier (all inputs of a 60 kLOC "
             "program compiled by itself) has no finite space to enumerate here: C01-C14 and C25 decide the parts that have"}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        m = importlib.import_module("checks." + pid.lower())
        checks.append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid, "thorough_cmd": "python3 run.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": m.NOTE})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Bounded-exhaustive enumeration replayed on the real compiler built from /repo's working tree; see DESIGN.md. No hooks in /repo are needed."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
