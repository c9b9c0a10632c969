#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(os.path.join(V, "seeded")):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"]))
t = "<!-- table -->\n| change | needs | caught by |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (d, n, p) for p, d, n in sorted(rows)) + "<!-- end -->"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s.replace("@@CATCH@@", t) if "@@CATCH@@" in s else re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
