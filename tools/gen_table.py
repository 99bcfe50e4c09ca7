#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | caught by | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m.get("caught_by", m["property"]), m["needs"].replace("|", "/").replace("\n", " ")))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"(<!-- table -->\n).*?(<!-- end -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
