#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"]))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- BUGS -->.*<!-- /BUGS -->", lambda _: "<!-- BUGS -->\n" + "\n".join(rows) + "\n<!-- /BUGS -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
