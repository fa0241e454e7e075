#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (defects, planted bugs) between their markers."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
fixed = json.load(open(os.path.join(H, "KNOWN_FINDINGS.json")))["fixed"]
a = ""
for f in fixed:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", f, re.S)
    a += "* %s, commit %s: %s.\n" % (m.group(1), m.group(2), m.group(3).rstrip("."))
b = "| planted change | property | needs | quick check |\n|---|---|---|---|\n"
caught = json.load(open(os.path.join(H, "tools", "caught.json")))
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    b += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], caught.get(i, "not run"))
def put(s, name, text):
    x, y = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    return s[:s.index(x) + len(x)] + text + s[s.index(y):]
s = put(put(s, "fixed", a), "seeded", b)
open(p, "w").write(s)
