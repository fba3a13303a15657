#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import registry
props = [json.loads(l) for l in open(f"{BASE}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = registry.NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i} --tier=thorough",
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "no sound static check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/vbuild.py", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks: the checks analyse /repo's sources as they are", "source_commits": []}},
          open(f"{BASE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
