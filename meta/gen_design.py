#!/usr/bin/env python3
"""Fills the generated lists of DESIGN.md from meta/design.md."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(os.path.join(root, "meta", "design.md")).read()
fixed = []
for l in open(os.path.join(root, "meta", "fixed.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m:
        fixed.append("* %s %s: %s" % (m.group(1), m.group(2), m.group(3)))
s = s.replace("@FIXED@", "\n".join(fixed))
rows = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
caught = {}
p = os.path.join(root, "meta", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        w = l.split(None, 1)
        if len(w) == 2:
            caught[w[0]] = w[1].strip()
sd = os.path.join(root, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "")))
s = s.replace("@SEEDED@", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(s)
