#!/usr/bin/env python3
"""run.py <property id>  -  decide one property on /repo's current working tree."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "checks")]
import core
from registry import PROPS, LEVEL, NOTE
pid = sys.argv[1]
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
core.run(pid, PROPS[pid], LEVEL.get(pid, "other"), NOTE.get(pid, ""))
