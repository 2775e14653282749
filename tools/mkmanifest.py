#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
try:
    NA = json.load(open(os.path.join(here, "tools", "na.json")))
except FileNotFoundError:
    pass
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("verif:")]
m["hooks"] = {"guard": "DVO_VERIF", "enable": "harness builds pass -DDVO_VERIF (lib/vlib.py BASE_FLAGS)", "source_commits": hooks}
for p in props:
    if p["id"] in checks.REGISTRY:
        fn, level, tech, note = checks.REGISTRY[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
