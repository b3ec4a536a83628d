#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_src.md, the findings and the planted bugs."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
s = open(H + "/design_src.md").read()
fixed, opn = json.load(open(H + "/fixed.json")), json.load(open(H + "/open.json"))
missed = json.load(open(H + "/missed.json")) if os.path.exists(H + "/missed.json") else {}
rows = ["| Planted bug | Property | Needs | Caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/../seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], missed.get(i, m["property"])))
s = s.replace("@NFIX@", str(len(fixed))).replace("@NOPEN@", str(len(opn)))
s = s.replace("@OPEN@", "\n".join("* %s: %s" % (o["property"], o["what"]) for o in opn))
s = s.replace("@FIXES@", "\n".join("* %s – %s: %s" % tuple(f) for f in fixed))
s = s.replace("@SEEDS@", "\n".join(rows)).replace("@MORE@", "")
open(H + "/../DESIGN.md", "w").write(s)
