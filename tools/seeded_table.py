#!/usr/bin/env python3
"""writes the list of seeded bugs into DESIGN.md"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = open(root + "/seeded/MISSED").read().split() if os.path.exists(root + "/seeded/MISSED") else []
by = {}
for i in sorted(os.listdir(root + "/seeded")):
    f = root + "/seeded/" + i + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        by.setdefault(m["property"], []).append((i, m["needs"]))
lines = []
for p in sorted(by):
    lines.append("\n**%s** (%d)\n" % (p, len(by[p])))
    for i, needs in by[p]:
        lines.append("* `%s`%s – %s" % (i, " (MISSED)" if i in missed else "", needs))
s = open(root + "/DESIGN.md").read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
s = s[:s.index(a)] + a + "\n" + "\n".join(lines) + "\n" + s[s.index(b):]
open(root + "/DESIGN.md", "w").write(s)
print(sum(map(len, by.values())), "seeded bugs")
