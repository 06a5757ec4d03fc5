#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from props import P, NOT_APPLICABLE  # noqa: E402
from registry import CHECKS  # noqa: E402

P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "python3 lib/run.py build",
     "checks": [], "not_applicable": [{"property": k, "reason": r} for k, r in NOT_APPLICABLE],
     "notes": "No hooks in /repo: harnesses in harness/ are compiled against /repo's working tree (with its own flags) by lib/run.py, which caches objects by content in build/. "
              "Known findings and fixes are in known_findings.txt."}
for p in P:
    if p["id"] in CHECKS:
        cmd = "python3 lib/run.py check " + p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        assert any(k == p["id"] for k, _ in NOT_APPLICABLE), p["id"] + " is neither checked nor not applicable"
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
