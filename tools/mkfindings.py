#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects with their commits, and the open findings listed here."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = json.load(open(os.path.join(V, "tools", "fixed.json")))   # [property, commit subject, what failed]
OPEN = json.load(open(os.path.join(V, "tools", "open.json")))
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s] = h
res, used = [], set()
for prop, subj, what in FIXED:
    m = [s for s in log if s.startswith("fix: " + subj)]
    assert len(m) == 1, (subj, m)
    used.add(m[0])
    res.append("fixed: property=%s %s %s" % (prop, log[m[0]], what))
left = [s for s in log if s.startswith("fix:") and s not in used]
assert not left, left
json.dump({"open": OPEN, "fixed": res}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(res), "fixed", len(OPEN), "open")
