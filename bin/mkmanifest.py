#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/properties.py; a property is claimed when
props/<id>.py exists."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from properties import P

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification: contracts (pre/postconditions, invariants) executed against the real "
        "source by symbolic execution, every obligation discharged by z3 for all inputs; counterexamples replayed "
        "natively")
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {k: v for k, v in p.items() if k not in ("level", "note")}
        assert len(d["title"]) <= 80, d["id"]
        assert d["statement"].count(". ") <= 2, (d["id"], d["statement"].count(". "))
        f.write(json.dumps(d) + "\n")
        if os.path.exists(os.path.join(V, "props", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                           "technique": TECH, "level": p["level"],
                           "level_note": p["note"] or "all obligations discharged without a bound on inputs; "
                           "harnesses labelled bounded in the evidence are not counted as proved"})
        else:
            na.append({"property": p["id"], "reason": "no check has been built for this property"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
