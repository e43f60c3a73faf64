#!/bin/bash
# Runs the checks of the given planted bugs (default: all) against them and prints caught or missed.
# usage: detect.sh [bug ...]; PROP=ID to run another property's check.
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=${PROP:-$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")}
  c=$(python3 -c "import json;print([x['quick_cmd'] if 'quick_cmd' in x else x['quick']for x in json.load(open('MANIFEST.json'))['checks'] if x['property']=='$p'][0])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash -c "$c" > /tmp/det/$b.log 2>&1; r=$?
  git -C /repo checkout -- .
  v=$(grep -m1 "^VIOLATION property=$p" /tmp/det/$b.log)
  echo "$b $p exit=$r $(( $(date +%s)-s ))s $v"
done
