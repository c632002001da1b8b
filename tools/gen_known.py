#!/usr/bin/env python3
"""Adds the fixed: entries for the fix commits of /repo to known_findings.json (development tool, never run by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = V + "/known_findings.json"
k = json.load(open(V + "/tools/known.json"))
MAP = json.load(open(V + "/tools/fixed.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, m = l.split(" ", 1)
    if m.startswith("fix:"):
        for p in MAP[m]["props"]:
            k.append(dict(status="fixed", property=p, entry="fixed: property=%s %s %s" % (p, h, MAP[m]["what"])))
json.dump(k, open(F, "w"), indent=1)
