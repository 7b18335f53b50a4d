#!/usr/bin/env python3
# MANIFEST.json from properties.jsonl + checks.py
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 tools/run.py --setup", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 tools/run.py {i} --tier quick", thorough_cmd=f"python3 tools/run.py {i} --tier thorough",
                                evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
