#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from registry import REGISTRY
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    s = REGISTRY.get(p["id"])
    if s:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
            thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=s["technique"], level=s.get("level", "model_checking"), level_note=s["level_note"]))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks compile the unmodified headers and sources of /repo", source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
