#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per mc/checks/cNN.py, everything else
in properties.jsonl goes to not_applicable."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
    "model_checking": "explicit-state / stateless bounded model checking of the real code against a reference model",
    "exploration": "bounded-exhaustive enumeration of inputs on the real code against an independent reference",
    "fault_enumeration": "exhaustive fault (corruption) enumeration on the real code",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    f = os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    v = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                v[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash run.sh %s --tier quick" % p["id"],
        "thorough_cmd": "bash run.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": v.get("TECHNIQUE", TECH[v["LEVEL"]]),
        "level": v["LEVEL"],
        "level_note": "Complete within these bounds (quick): %s. Trusted: %s." % (
            v["BOUNDS"]["quick"], "; ".join(v["ASSUMPTIONS"])),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Run checks with bash run.sh CNN; replay a counterexample with bash run.sh CNN --replay FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
