#!/usr/bin/env python3
"""dev/design.py: DESIGN.tmpl.md + seeded/*/meta.json -> DESIGN.md"""
import json, os, re
V = "/verif"
s = open(V + "/DESIGN.tmpl.md").read()
rows = ["| plant | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s%s | %s | %s |" % (d, m["property"], m.get("caught", ""), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = s.replace("@@PLANTS@@", "\n".join(rows)).replace("@@MORE@@\n", "")
open(V + "/DESIGN.md", "w").write(s)
