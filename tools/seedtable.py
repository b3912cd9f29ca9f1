#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["needs"]))
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
head = "<!-- from seeded/*/meta.json -->\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(f, "w").write(s[:i] + "| bug | check that catches it | needs |\n|---|---|---|\n" + "\n".join(rows) + s[j:])
