#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md (between the SEEDS markers)"""
import os, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (check that catches it) | needs |", "|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i))); rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"]))
d = open(H + "/DESIGN.md").read(); t = "<!-- SEEDS -->\n%d planted bugs, all caught by the quick check of their property:\n\n%s\n<!-- /SEEDS -->" % (len(rows) - 2, "\n".join(rows))
d = d.replace("SEEDTABLE", t) if "SEEDTABLE" in d else re.sub(r"<!-- SEEDS -->.*<!-- /SEEDS -->", lambda _: t, d, flags=re.S)
open(H + "/DESIGN.md", "w").write(d)
