#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import plan
checks = []
for pid in sorted(plan.PLAN):
    t, note = plan.NOTES.get(pid, (None, None))
    checks.append(dict(
        property=pid,
        quick_cmd="python3 run.py check %s --tier quick" % pid,
        thorough_cmd="python3 run.py check %s --tier thorough" % pid,
        technique=t or "TLA+ specification (TLC); behaviours generated from it replayed on the real caches",
        level="model_checking",
        level_note=note or "Specification checked exhaustively in small scopes and by random behaviours; every behaviour replayed "
                   "step by step on sync::Cache, SegmentedCache and future::Cache, each observation compared with the specified one. "
                   "Trusts TLC, rustc and the replay harness; complete only within the explored scopes."))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=plan.NOT_APPLICABLE,
         notes="TLA+/TLC. See DESIGN.md. KNOWN_FINDINGS.txt lists the findings.")
if plan.HOOKS:
    m["hooks"] = plan.HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
