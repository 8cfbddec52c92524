#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the markers)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|-----|-------|-----------|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    caught = m.get("caught_by", m["property"])
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "/"), caught))
d = open(V + "/DESIGN.md").read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
d = d.replace("@SEEDED@", t) if "@SEEDED@" in d else re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
