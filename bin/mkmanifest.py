#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the property list."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plans
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        tech, note = plans.NOTES.get(i, plans.NOTES["default"])
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick",
                       "thorough_cmd": f"python3 bin/check.py {i} thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of /repo's crates", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC); conformance harness in harness/; bin/check.py runs one check. "
              "Defects found and repaired are listed in known-findings.json (status fixed)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
