#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what breaks, and what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {d['property']} | {d['what_it_breaks']}; needs {d['needs']} |")
p = root + "/DESIGN.md"
s = open(p).read()
a, rest = s.split("<!-- seeds -->\n", 1)
tail = rest.split("<!-- /seeds -->\n", 1)[1] if "<!-- /seeds -->" in rest else ""
open(p, "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->\n" + tail)
