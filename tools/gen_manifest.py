#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: every check uses the public interface. All checks are driven by check.py; failing cases are "
             "written to replays/ and run again with: python3 check.py replay FILE.",
}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
