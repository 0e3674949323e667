#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (by hand; no check reads it)."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", "executable contract, with a failing input")))
t = "## Planted bugs\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open("DESIGN.md").read()
s = re.sub(r"## Planted bugs\n.*?(?=\n## |\Z)", lambda _: t, s, flags=re.S) if "## Planted bugs" in s else s + "\n" + t
open("DESIGN.md", "w").write(s)
