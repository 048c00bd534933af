#!/usr/bin/env python3
"""rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 7. Planted bugs"
missed = {l.split()[0] for l in open(V + "/tools/missed.txt")} if os.path.exists(V + "/tools/missed.txt") else set()
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append((d["property"], i, d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), "missed" if i in missed else "caught"))
rows.sort()
s = open(V + "/DESIGN.md").read()
s = s[:s.index(MARK)] + MARK + """

%d changes, each confirmed to build, to pass the stable tests and to fail its own
demonstration. The check named is that of the property the bug was written from.

| check | bug | what it breaks | needs | result |
|---|---|---|---|---|
""" % len(rows) + "".join("| %s | %s | %s | %s | %s |\n" % r for r in rows)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "bugs")
