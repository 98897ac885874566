#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/areas.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
areas = json.load(open(os.path.join(H, "harness/areas.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in areas:
        a = areas[i]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=a.get("technique", "property-based testing (rapid): generated grids and histories against a reference model, with shrinking"),
            level="exploration",
            level_note=a.get("note", "Random structured generation against an explicit oracle; bounded sizes, no exhaustiveness claimed.")))
    else:
        na.append(dict(property=i, reason=areas.get("_na", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
