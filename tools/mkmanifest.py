#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/propcfg.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from propcfg import PROPS, TECH, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    t, n = TECH[i]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": c.get("level", "exploration"), "level_note": n})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'tools'); import check, gentypes\"", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles its own harness against /repo's working tree, runs generated cases, shrinks failures and writes replays/<...>.json; `python3 tools/check.py <ID> --replay <file>` re-executes one."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
