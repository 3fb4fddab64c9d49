#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/props.py and lib/config.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "lib"))
from props import L
from config import PROPS
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in L))
checks = []; na = []
for x in L:
    i = x["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=q.get("technique", "exhaustive bounded exploration of the real code (stateless model checking)"),
            level=q.get("level", "model_checking"), level_note=q.get("note", "Exhaustive within: " + q["bounds"] + ". Oracle: " + q["oracle"] + ". Says nothing outside these bounds.")))
    else: na.append(dict(property=i, reason=globals().get("NA", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="mkdir -p build evidence replays", checks=checks, not_applicable=na,
         notes="check.py builds every harness from /repo's working tree into /verif/build; no hooks are needed in /repo (interposition at link level). known_findings.txt lists repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# DESIGN.md
sys.path.insert(0, os.path.join(V, "design"))
from how import HOW
rd = lambda f: open(os.path.join(V, "design", f)).read() if os.path.exists(os.path.join(V, "design", f)) else ""
cost = json.load(open(os.path.join(V, "design", "cost.json")))
out = [rd("head.md")]
for x in L:
    i = x["id"]; q = PROPS[i]
    out.append("### %s %s\n\n%s\n\n* How: %s\n* Enumerated: %s.\n* Oracle: %s.\n* Technique: %s. Cost: quick about %s s%s.\n* Why tests cannot: %s\n\n" % (i, x["title"], x["statement"], " ".join(HOW[i].split()), q["bounds"], q["oracle"],
        q.get("technique", "exhaustive bounded exploration of the real code (stateless model checking)"), cost[i][0], (", thorough about %s s" % cost[i][1]) if len(cost[i]) > 1 else "", x["why_tests_cant"]))
fixed = ""
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, p, c, t = l.strip().split(" ", 3); fixed += "| %s | %s | %s |\n" % (p.split("=")[1], c, t)
out.append(rd("tail.md").replace("@@FIXED@@", fixed.rstrip()).replace("@@SEEDED@@", rd("seeded.md").rstrip()).replace("@@QUIET@@", rd("quiet.md").rstrip()))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
