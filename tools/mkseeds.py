#!/usr/bin/env python3
"""Writes SEEDS.md: each planted bug, what it needs, the check that catches it, what was added for it."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = json.load(open(os.path.join(ROOT, "tools", "seed_notes.json")))
o = ["# Which checks catch which planted bugs", "",
     "All but C10-deep-flow are caught by the check of the property named, at the quick tier. \"Later\" names what was",
     "added when the check missed the bug at first. Written by `tools/mkseeds.py`.", "",
     "| bug | check | needs | later |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    n = m["needs"].replace("|", "\\|").replace("\n", " ")
    o.append("| %s | %s | %s | %s |" % (d, m["property"], n, LATER.get(d, "")))
open(os.path.join(ROOT, "SEEDS.md"), "w").write("\n".join(o) + "\n")
