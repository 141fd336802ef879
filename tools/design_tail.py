#!/usr/bin/env python3
"""append the generated tables (fixed defects, planted bugs) to DESIGN.md"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read().split("<!-- generated -->")[0]
s += "<!-- generated -->\n## Defects found in the library\n"
for k in json.load(open(V + "/known_findings.json"))["findings"]: s += f"- {k['entry']}\n"
s += "\n## Planted bugs (seeded/) and the check that catches each\nEvery one applies to HEAD, compiles, passes the tests, and its demo fails only with it; `tools/seedtest.py` re-validates.\n\n| planted bug | caught by | manifests only with |\n|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    s += f"| {n} | {m['property']} | {m['needs'].replace('|', '/')} |\n"
open(V + "/DESIGN.md", "w").write(s)
