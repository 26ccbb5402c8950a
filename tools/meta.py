#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, results committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
           "thorough_cmd": "python3 check.py %s thorough" % p["id"],
           "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
           "evidence_file": "evidence/%s.json" % p["id"]} for p in PROPS if "technique" in p]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "TLA+/TLC. No hooks: every observation goes through the public headers of the library or the tools it builds."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
claimed = {c["property"] for c in checks}
na = {n["property"] for n in NOT_APPLICABLE}
assert {p["id"] for p in PROPS} == claimed | na and not claimed & na
import importlib.util
for c in checks: assert os.path.exists(os.path.join(V, "checks", c["property"].lower() + ".py")), c
print(len(PROPS), "properties,", len(checks), "checks")
