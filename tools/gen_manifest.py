#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl (development aid, not run by any check)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plan import PLAN, LEVEL, TECH, NOTE
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    if p not in PLAN:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p],
        "level": LEVEL[p],
        "level_note": NOTE[p],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "NESTL_VERIF", "enable": "no hooks were needed: the library is header-only and every monitor attaches through its public customisation points (element types, allocators, comparators, iterators, error types)", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in PLAN],
    "notes": "Every check compiles the drivers in harness/ against /repo's working tree (header-only library) and judges the executions; see DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
