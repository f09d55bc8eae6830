#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIMS:
        tech, level, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": tech, "level": level, "level_note": note})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks}
if na: m["not_applicable"] = na
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
