#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/meta.json and the checks present."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/checks/meta.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    m = meta.get(i, {})
    if glob.glob(V + "/checks/" + i + "*.cpp") and "note" in m:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": m.get("technique", "explicit-state bounded-exhaustive exploration of the real code against a reference model"),
                       "level": "model_checking", "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": m.get("na", "No check registered yet: the exhaustive exploration for this property is planned in DESIGN.md and not built.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all checks drive the public API of the header-only library."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
