#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry of checks and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, level, note = registry.ABOUT[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check runs TLC on a TLA+ specification under specs/ and binds it to the code built from /repo; see DESIGN.md. No hooks are needed in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
