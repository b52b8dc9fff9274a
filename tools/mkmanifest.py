#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table of claimed checks"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = {
 "default": "TLC checks the specification exhaustively within the bounds of its configuration; the code is bound to it by replaying every behaviour TLC exports into the real code and by having TLC judge seeded recordings of the real code, so assurance for the code is that of the behaviours explored (counts in the evidence file). Trusts TLC, the Go toolchain and the harness's projection of library values.",
}
import re, sys
sys.path.insert(0, R)
import checks
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": checks.TECH.get(i, "TLA+ specification checked with TLC; behaviours replayed into and traces recorded from the real code"),
            "level": "model_checking", "level_note": checks.LEVEL_NOTE.get(i, NOTE["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction; not claimed yet"})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
