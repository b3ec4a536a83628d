#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
NOT_APPLICABLE = {}
NOTE["C01"] = NOTE["C02"] = NOTE["C03"] = (
    "TLC checks the ring's design exhaustively on a small circle (every content, every query); generated edit/query "
    "behaviours (all edit sequences up to the bound, every content of an 8-position ring with its queries, random long "
    "ones) run on the real ring and every answer is validated by TLC against the same specification. Positions are embedded "
    "into the 256-bit space in several order- and distance-preserving ways; identifiers outside these embeddings and longer "
    "histories are not explored.")
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_notes.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.AREAS and i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": "TLA+ specification checked with TLC; generated behaviours run on the real code and recorded traces validated against the specification",
                       "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ / TLC. Drivers are laid over /repo with go build -overlay; /repo carries no hooks."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
