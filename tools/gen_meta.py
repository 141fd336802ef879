#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (the single place both are maintained)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
TECH = "static analysis: {}"
claimed = [p for p in PROPS if not p.get("na")]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["forall"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'engine'); import core; print(core.irdump_path())\"",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                   "technique": TECH.format(p["tech"]), "level": p.get("level", "other"), "level_note": p["note"]} for p in claimed],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")],
       "notes": "No hooks are needed in /repo. See DESIGN.md."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed,", len(PROPS) - len(claimed), "not applicable")
