#!/usr/bin/env python3
"""Adds rows for planted bugs that DESIGN.md's table does not list yet."""
import json, os
s = open("/verif/DESIGN.md").read()
lines = s.split("\n")
last = max(i for i, l in enumerate(lines) if l.startswith("| s"))
new = []
for b in sorted(os.listdir("/verif/seeded")):
    if "| %s |" % b not in s:
        m = json.load(open("/verif/seeded/%s/meta.json" % b))
        new.append("| %s | %s | %s |" % (b, m["property"], m["what_it_breaks"]))
lines[last + 1:last + 1] = new
open("/verif/DESIGN.md", "w").write("\n".join(lines))
