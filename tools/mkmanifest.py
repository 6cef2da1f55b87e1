#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks, notes
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                 "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": checks.CHECKS[i]["technique"], "level": "exploration",
                 "level_note": "Oracle: %s. Bounds: %s." % notes.NOTES[i][:2]} for i in ids if i in checks.CHECKS],
     "not_applicable": [{"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check built")} for i in ids if i not in checks.CHECKS]}
assert all(i in ids for i in checks.CHECKS)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
