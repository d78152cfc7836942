#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_props.md and the list of planted bugs."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); rows.append("| %s | %s | %s |" % (os.path.basename(d), m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
t = open(H + "/tools/design_head.md").read() + open(H + "/tools/design_props.md").read().replace("__N__", str(len(rows)))
t += "| id | needs | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(H + "/DESIGN.md", "w").write(t)
