#!/bin/bash
# runs the check of each planted change against it: tools/try.sh id ...
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i NOT APPLIED"; continue; }
  t=$(date +%s); ./check ${PROP:-$p} > /tmp/try.$i.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$r $(( $(date +%s) - t ))s $(grep -c 'not discharged' /tmp/try.$i.log) undischarged; $(grep VIOLATION /tmp/try.$i.log)"
done
