#!/usr/bin/env python3
"""puts the table of seeded bugs into DESIGN.md (between the markers of section 6)"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, n)))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], m.get("caught", m["property"] + " quick")))
p = ROOT + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end seeds -->"
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- seeds -->.*<!-- end seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
