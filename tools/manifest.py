#!/usr/bin/env python3
"""Source of MANIFEST.json: run `python3 tools/manifest.py > MANIFEST.json`."""
import json, os, re, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
T = {}
def c(id, level, technique, note): T[id] = (level, technique, note)
exec(open(os.path.join(here, "claims.py")).read())
checks, na = [], []
for p in props:
    id = p["id"]
    if id in T:
        level, technique, note = T[id]
        checks.append({"property": id, "quick_cmd": f"./check.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {id}",
                       "evidence_file": f"evidence/{id}.json", "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": id, "reason": NA.get(id, "no check has been built for it yet")})
print(json.dumps({"version": 1, "setup_cmd": "./check.sh --all",
    "hooks": {"guard": "none", "enable": "the checks need no hooks: they use the public interfaces of the crates", "source_commits": []},
    "checks": checks, "not_applicable": na}, indent=1))
