#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
from propdocs import DOCS, TECH, NOT_APPLICABLE
V = os.path.dirname(HERE)
assert set(DOCS) == set(PROPS) | {x for x in NOT_APPLICABLE if x in DOCS}, set(DOCS) ^ set(PROPS)
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(DOCS):
        d = DOCS[k]
        assert len(d["title"]) <= 80, d["title"]
        for x in d["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({
            "id": k, "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["text"]}, "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]}}) + "\n")
checks = []
for k in sorted(PROPS):
    d = DOCS[k]
    checks.append({"property": k, "quick_cmd": f"python3 tools/check.py {k} --tier quick",
                   "thorough_cmd": f"python3 tools/check.py {k} --tier thorough",
                   "technique": d["technique"] or TECH, "level": "exploration",
                   "level_note": d["note"] or "every observed execution satisfied the oracle; executions are sampled (seeded inputs, histories, schedules and configurations), not enumerated"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]},
          open(V + "/MANIFEST.json", "w"), indent=1)
