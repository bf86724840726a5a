#!/usr/bin/env python3
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, ".")
from contracts.meta import PROPS, LEVEL_NOTE, TECH
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in PROPS:
        info = PROPS[i]
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=info.get("technique", TECH),
                           level=info.get("level", "proof"), level_note=info.get("level_note", LEVEL_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts for this property are not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks in /repo are needed", source_commits=[]),
         notes="Every check executes the functions of /repo's current tree; see DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
