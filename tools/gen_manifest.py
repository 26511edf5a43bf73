#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PLAN:
        continue
    d = PLAN[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": d["technique"], "level": d["level"], "level_note": d["note"] or "Seeded search: no violation in the explored runs; nothing is proved about the rest. " + d["rule"]})
na = [{"property": p, "reason": NA.get(p, "Its check is not built yet.")} for p in ids if p not in PLAN]
m = {"version": 1, "setup_cmd": "python3 tools/build.py sim",
     "hooks": {"guard": "VERIF_SIM", "enable": "No hooks were needed in /repo: every seam (heap, clock, rand, standard output, callbacks) is taken at link level by tools/build.py, which compiles /repo's sources as they are.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replays: python3 check.py --replay FILE. Genuine defects found so far were repaired (fix: commits) and are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
