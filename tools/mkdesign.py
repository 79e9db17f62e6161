#!/usr/bin/env python3
"""Puts DESIGN.md together: design_head.md, design_props.md, findings, planted bugs (results in planted.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
out = [open(os.path.join(T, f)).read().rstrip() for f in ("design_head.md", "design_props.md")]
kf = json.load(open(os.path.join(V, "known_findings.json")))
s = ["## Genuine defects found", "", "Repaired by `fix:` commits in /repo (`known_findings.json` has the same list; a fixed entry suppresses nothing):", ""]
s += ["* %s: %s" % (k["id"], k["entry"].split(": ", 1)[1]) for k in kf if k["status"] == "fixed"]
s += ["", "Recorded, not repaired (the check prints a KNOWN-FINDING line and matches only this):", ""]
s += ["* %s (%s): %s." % (k["id"], k["property"], k["what"]) for k in kf if k["status"] == "known"]
out.append("\n".join(s))
res = json.load(open(os.path.join(T, "planted.json"))) if os.path.exists(os.path.join(T, "planted.json")) else {}
s = ["## Planted bugs", "", "Each lies in `seeded/<id>/` with a demonstration. \"caught by\": checks that exit 1 with it applied (results of `tools/seedtest.py`).", "",
     "| bug | property | what it needs | what it breaks | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    s.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], ", ".join(res.get(i, ["?"])) or "none"))
out.append("\n".join(s))
p = os.path.join(T, "design_tail.md")
if os.path.exists(p): out.append(open(p).read().rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n\n".join(out) + "\n")
