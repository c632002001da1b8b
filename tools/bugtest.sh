#!/bin/bash
# bugtest.sh DIFF... : apply each to /repo, build, run the stable tests, undo
for d in "$@"; do
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply $d || continue
  bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1 || { echo "build failed"; grep -m3 -A5 "^error" /tmp/seed/build.log; git -C /repo checkout -q -- .; continue; }
  echo "$d: $(bash /opt/vp/test.sh /tmp/seed/t.json 2>/dev/null | tail -1)"
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed/t.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
print("   missing:", sorted(names(b)-names(t))[:4])
P
  git -C /repo checkout -q -- .
done
