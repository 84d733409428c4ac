#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import check
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NOTES = {}
for f, c in ((check.CHECKS[p], p) for p in check.CHECKS):
    NOTES[c] = (f.__doc__ or "").strip().replace("\n", " ")
NA = {}
na_file = os.path.join(here, "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "All checks: TLA+ specifications checked with TLC; recorded executions of the unmodified /repo sources are validated against them with TLC. No hooks in /repo."}
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; TLC trace validation of executions of the real code",
            "level": "model_checking",
            "level_note": NOTES[i] or "TLC explores the specification exhaustively within small constants; conformance of the code is shown on the executions explored (controlled schedules, generated histories)."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check is registered for this property yet.")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
