#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/plan.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
from plan import PLAN
checks = []
for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    plan = PLAN[p["id"]]
    models = plan["models"] + [d[1] for d in plan["design"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": "TLA+ specification model-checked with TLC; its behaviours replayed on the program and observed runs validated by TLC",
        "level": "model_checking",
        "level_note": "TLC explores the specification on all inputs of %s; all of these and random and large inputs are run on the real program, and TLC judges each "
                      "observation against the specified behaviour. Complete for those inputs, sampled beyond; trusts TLC and harness/sut.py, which runs the program "
                      "and reads its output." % ", ".join(models)})
manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
            "notes": "No hooks in /repo: the program is observed as its users see it, through its command line. See DESIGN.md; KNOWN_FINDINGS.txt lists the defects found."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
