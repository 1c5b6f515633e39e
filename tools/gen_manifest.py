#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import PROPS, NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -m vlib.build plain asan",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks build /repo's sources as they are and observe them from outside", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": "TLA+ specification model-checked with TLC, behaviours generated from it replayed in the real code and the recorded runs validated against it (TLC trace validation)",
                            "level": PROPS[i][0], "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "direct handles share the subscription and listener tables of the handle they were opened from and the tear-down of private connections is inconsistent in itself (DESIGN.md section 7); no specification was bound to it in the time there was"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
