#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in props.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import ALL, NA, TECH, NOTES
from config import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for p in ALL:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in ALL:
    i = p["id"]
    if i in NA:
        continue
    c = PROPS[i]
    t, note = TECH[i]
    checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                       technique=t, level=c["level"], level_note=note))
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if "verif hooks" in l]
m = dict(version=1, setup_cmd="./check --setup",
         hooks=dict(guard="cfg(any(kani, lightyear_verif))", enable="RUSTFLAGS='--cfg lightyear_verif' (native) or cargo kani (sets cfg(kani)), with LIGHTYEAR_VERIF_HOOKS=/verif/hooks in the environment", source_commits=hooks),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes=NOTES)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
missing = set(PROPS) - {p["id"] for p in ALL}
assert not missing, missing
print(len(ALL), "properties,", len(checks), "checks")
