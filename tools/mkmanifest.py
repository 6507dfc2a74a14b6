#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
from registry import REG
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        r = REG[i]
        mods = sorted({d["module"] for d in r["design"]})
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python harness/check.py %s" % i,
            "thorough_cmd": "/opt/venv/bin/python harness/check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification: TLC explores %s exhaustively; generated behaviours and seeded "
                         "programs are replayed on the library and every recorded call is validated against "
                         "the specification by TLC" % (", ".join(mods) or "the action rules"),
            "level": "model_checking",
            "level_note": r.get("note") or "model exhaustive within its bounds; the code is bound to it by replay "
                          "and trace validation of the calls recorded, not for all inputs",
            "assumptions": r["assumptions"]})
    else:
        na.append({"property": i, "reason": "not built yet: planned, see DESIGN.md"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
