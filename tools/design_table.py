#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
head = "| planted bug | caught by | shows only with |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
