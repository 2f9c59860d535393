#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json and tools/caught.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), c.get(i, "(not run yet)")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
