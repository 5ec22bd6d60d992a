#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and tools/config.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS  # noqa: E402
from props import PROPS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for (n, w) in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": p.get("hook")}}) + "\n")

checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": c.get("technique", "explicit exhaustive enumeration of bounded "
                                          "executions of the real code against a reference model"),
                       "level": c["level"], "level_note": c.get("note", ""),
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built for it yet.")})
man = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
       "checks": checks, "not_applicable": na,
       "notes": "Every check builds /repo's current sources into /verif/build (ignored by git) and "
                "runs an exhaustive bounded exploration on the real code; see DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
