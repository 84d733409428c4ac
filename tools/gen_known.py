#!/usr/bin/env python3
"""Source of /verif/known_findings.jsonl: repaired defects (kind fixed) and recorded ones (kind finding)."""
import json, os
F = []
def fixed(prop, subj, what):
    F.append((prop, subj, what))
K = []
def finding(prop, id, what, suite, event=None, cfg=None):
    K.append({"property": prop, "kind": "finding", "id": id, "what": what, "suite": suite,
              "event": event or {}, "cfg": cfg or {}})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings.py")).read())
import subprocess
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
for prop, subj, what in F:
    h = [l.split()[0] for l in log if subj in l]
    if len(h) > 1:
        h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(("fix: " + subj, subj))]
    assert len(h) == 1, (subj, h)
    out.append({"property": prop, "kind": "fixed", "id": h[0], "what": what,
                "entry": "fixed: property=%s %s %s" % (prop, h[0], what)})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl"), "w") as f:
    for o in out + K:
        f.write(json.dumps(o) + "\n")
print(len(out), "fixed,", len(K), "findings")
