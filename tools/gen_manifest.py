#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "model_checking": "explicit-state / stateless model checking of the real code against a reference model in lockstep",
    "exploration": "exhaustive enumeration of a bounded input space on the real code against an independent oracle",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=p["id"], reason="no check has been built yet"))
        continue
    names = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                names[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    bounds = names.get("BOUNDS", {}).get("quick") or names.get("RULE", "")
    note = "Holds on every case within the bounds (quick): %s." % bounds.rstrip(".")
    if names.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(names["ASSUMPTIONS"]) + "."
    checks.append(dict(
        property=p["id"],
        quick_cmd="VERIF_TIER=quick python3 check.py " + p["id"],
        thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=names.get("TECHNIQUE", TECH[names["LEVEL"]]),
        level=names["LEVEL"], level_note=note))
m = dict(version=1, setup_cmd="python3 -m py_compile check.py lib/*.py checks/*.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks wrap public functions at run time. Every check imports the code from "
               "/repo's working tree (VERIF_REPO overrides it).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
