#!/usr/bin/env python3
"""DESIGN.md from tools/design.md and the planted bugs' meta.json"""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["what_it_breaks"].replace("|", "/")))
t = open(V + "/tools/design.md").read().replace("@@SEEDS@@", "\n".join(rows)).replace("@@MORE@@\n", "")
open(V + "/DESIGN.md", "w").write(t)
