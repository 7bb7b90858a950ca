#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from sa/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from sa.registry import CHECKS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, e in list(CHECKS.items()) + [(n["id"], n) for n in NOT_APPLICABLE]:
        f.write(json.dumps({"id": pid, "title": e["title"], "statement": e["statement"], "quantifier": e["quantifier"], "why_tests_cant": e["why"],
                            "anchors": {"files": e["files"], "mechanism": e["mechanism"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/tool/build.sh",
     "checks": [{"property": p, "quick_cmd": "python3 /verif/check.py %s" % p, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p,
                 "technique": e["technique"], "level": e["level"], "level_note": e["level_note"]} for p, e in CHECKS.items()],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p, e in CHECKS.items():
    assert len(e["title"]) <= 80, (p, len(e["title"]))
    assert e["statement"].count(". ") <= 2, p
