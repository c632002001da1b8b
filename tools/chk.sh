#!/bin/bash
# chk.sh ID [PROP]: run the quick check of the property against the planted bug ID
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
git -C /repo apply /verif/seeded/$1/patch.diff || exit 1
(cd /verif && VERIF_SEED=1 python3 run.py $P quick > /tmp/chk.log 2>&1); RC=$?
git -C /repo checkout -q -- .
echo "$1 $P: exit $RC $(grep -c '^VIOLATION' /tmp/chk.log) | $(tail -1 /tmp/chk.log | cut -c1-160)"
