#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/check.py's table and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import check
V = os.path.dirname(H)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "notes.json")))
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="none", enable="no hooks are needed: every observation goes through the public interface", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in check.TABLE and "technique" in NOTES.get(i, {}):
        n = NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                                thorough_cmd="python3 tools/check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=n["technique"],
                                level="model_checking", level_note=n["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOTES.get(i, {}).get("na", "specification and conformance check not built yet")))
m["notes"] = "TLA+ specifications in spec/, checked with TLC; conformance drivers in drivers/ replay TLC's states and behaviours against code built from /repo. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
