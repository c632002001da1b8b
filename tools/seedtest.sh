#!/bin/bash
# seedtest.sh ID : in the scratch copy /tmp/seed/repo, confirm that seeded/ID builds, passes the stable tests and that its demo
# fails with the patch and passes without it
ID=$1; D=/verif/seeded/$ID; R=/tmp/seed/repo
cd $R && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export LLVM_SYS_140_PREFIX=/usr/lib/llvm-14
run_demo() { (cd $R && bash $D/demo.sh > /tmp/seed/demo.$1.log 2>&1; echo "demo $1: exit $?"); }
run_demo clean
git apply $D/patch.diff || exit 1
run_demo patched; tail -3 /tmp/seed/demo.patched.log
if [ -z "$2" ]; then
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply $D/patch.diff && bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1; echo "build $?"
  bash /opt/vp/test.sh /tmp/seed/t.json 2>/dev/null | tail -1
  git -C /repo checkout -q -- .
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed/t.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
print("missing:", sorted(names(b)-names(t))[:8])
P
fi
git checkout -q -- .
