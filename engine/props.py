#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in props.d/*.json"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
props, checks, na = [], [], []
for p in sorted(glob.glob("props.d/*.json")):
    d = json.load(open(p))
    m = d.pop("check")
    props.append(d)
    i = d["id"]
    if "not_applicable" in m:
        na.append({"property": i, "reason": m["not_applicable"]})
        continue
    assert os.path.exists("engine/rules/r_%s.py" % i.lower()), i
    checks.append({
        "property": i,
        "quick_cmd": "python3 engine/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 engine/check.py %s --tier thorough" % i,
        "technique": m["technique"],
        "level": m.get("level", "proof"),
        "level_note": m["level_note"],
    })
with open("properties.jsonl", "w") as f:
    for d in props:
        f.write(json.dumps(d) + "\n")
with open("MANIFEST.json", "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 engine/build.py",
        "hooks": {"guard": "none", "enable": "no hooks: the checks read the compiler's intermediate representation of the unmodified source", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
    }, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
