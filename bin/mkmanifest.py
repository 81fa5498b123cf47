#!/usr/bin/env python3
"""Write MANIFEST.json from table.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import TABLE, NOTES, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in TABLE:
        t = TABLE[p]
        checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": t.get("technique", "TLA+ specification (TLC) + behaviour replay into the real code"),
                       "level": t.get("level", "model_checking"), "level_note": NOTES[p]})
na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in TABLE]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds /repo's working tree into build/lib, generates behaviours with TLC and replays them; see DESIGN.md. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
