#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (development tool, not a check)."""
import json
from vlib.props import PROPS, NA, TECH
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p.get("over", ["inputs"]), text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"],
                                mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
na = {n["property"] for n in NA}
checks = [dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
               thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=TECH[p["tech"]][0], level="other",
               level_note=TECH[p["tech"]][1]) for p in PROPS if p["id"] not in na]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
               notes="All checks are static: see DESIGN.md. No hooks in /repo."), open("MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
