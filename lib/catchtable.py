#!/usr/bin/env python3
"""Documentation only: rewrites the table of planted bugs at the end of DESIGN.md. No check uses it."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
rows.sort()
t = open(V + "/DESIGN.md").read()
mark = "<!-- planted bugs -->"
head = t[:t.index(mark)] if mark in t else t[:t.index("CATCHTABLE")]
with open(V + "/DESIGN.md", "w") as f:
    f.write(head + mark + "\n| caught by | bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows))
