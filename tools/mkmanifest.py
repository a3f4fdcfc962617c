#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from scen import registry
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({"property": i,
                       "quick_cmd": "python3-vt run.py %s quick" % i,
                       "thorough_cmd": "python3-vt run.py %s thorough" % i,
                       "technique": r["technique"], "level": r.get("level", "other"),
                       "level_note": "Solver verdict over all values within these bounds: " + r["bounds"]})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])
