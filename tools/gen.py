#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, HERE  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in PROPS:
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": ", ".join(p["files"])}]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")) and not p["na"]:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check is built for this property yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa checks rules check.py", "checks": checks,
               "not_applicable": na,
               "notes": "All checks are static: they parse /repo's source on every run and never import or run it. "
                        "python3 (standard library only) is all they need. No hooks are added to /repo."}, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
