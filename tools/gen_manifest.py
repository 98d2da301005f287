#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. One entry per property that has a check."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
mods = open(os.path.join(root, "harness/src/props/mod.rs")).read()
claimed = {m.upper() for m in re.findall(r"c\d\d(?=::)", mods)}
T = {}
exec(open(os.path.join(root, "tools/techniques.py")).read())
checks = []
for p in props:
    if p["id"] not in claimed:
        continue
    tech, note = T[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"tools/check.sh {p['id']}",
                       thorough_cmd=f"tools/check.sh {p['id']} --thorough",
                       evidence_file=f"evidence/{p['id']}.json",
                       technique=tech, level="exploration", level_note=note))
na = [dict(property=p["id"], reason="not claimed yet: its check is not built") for p in props if p["id"] not in claimed]
m = dict(version=1, setup_cmd="tools/build.sh",
         hooks=dict(guard="none", enable="the checks drive the public API only; no instrumentation was added to /repo", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="known_findings.txt lists fixed and known findings; DESIGN.md describes every check.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
