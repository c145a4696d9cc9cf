#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m.get("caught_by", m["property"]), m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
open(p, "w").write(s)
