#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_table.py and runs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import props_table as pt, runs
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in pt.T:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["betree_insert / betree_search return values and report"], "hook_needed": None}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in pt.T:
    i = p["id"]
    if runs.RUNS.get(i):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the compiled LLVM IR, Z3 deciding every branch and assertion", "level": "model_checking",
                       "level_note": (p["note"] or "Holds for every value of the symbolic inputs within the run's bounds (runs list and DESIGN.md); every path explored, counterexamples replayed on the gcc build.") + " Trusts the engine in dse/ (path models cross-checked natively on each run), Z3 and the libc models."})
    else:
        na.append({"property": i, "reason": pt.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Engine, harnesses and bounds are described in DESIGN.md; genuine defects in known-findings.jsonl. No hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
