#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the notes below."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import plans
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
DEF = ("TLA+ specification checked with TLC; every transition of the bounded model and seeded random histories are executed "
       "on the real code and the recorded traces validated against the specification")
NOTE = ("Within the bounds of the model every operation in every state is explored, its laws are checked, and the real code's "
        "behaviour is shown to be one the specification allows (results, statuses, destructor calls, allocator ledger, sanitizers). "
        "Beyond the bounds: seeded random histories with larger values. Trusts TLC, the compiler and the driver's observations; "
        "falsified recordings must be rejected in every run.")
NOTES = getattr(plans, "NOTES", {})
TECH = getattr(plans, "TECH", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEF), "level": "model_checking",
                       "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "not claimed yet: its specification and conformance check are under construction"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed. See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found and repaired."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
