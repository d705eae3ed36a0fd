#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property the harness implements (vh list) is claimed."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = subprocess.run([V + "/build/release/vh", "list"], stdout=subprocess.PIPE).stdout.decode().split()
sys.path.insert(0, os.path.join(V, "tools"))
import techniques
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in ids:
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "technique": techniques.T[p], "level": "exploration", "level_note": techniques.NOTE[p] if p in techniques.NOTE else techniques.DEFAULT})
    else:
        na.append({"property": p, "reason": techniques.NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 build.py release", "checks": checks, "not_applicable": na}
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
