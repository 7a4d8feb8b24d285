#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
exec(open(f"{here}/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        technique, level, note = CLAIMS[i]
        cmd = RUN.get(i, "./run.sh")
        checks.append(dict(property=i, quick_cmd=f"{cmd} {i} quick", thorough_cmd=f"{cmd} {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=technique, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
