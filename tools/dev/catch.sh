#!/bin/bash
# catch.sh DIR ID... : run each planted bug against its check in a copy
D=$1; shift
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$D/$i/meta.json'))['property'])")
  w=/tmp/ct/$i; mkdir -p /tmp/ct; cp -a /repo $w; git -C $w apply $D/$i/patch.diff || echo APPLY FAILED
  s=$(date +%s)
  out=$(cd /verif && SIM_REPO=$w VERIF_SEED=${SEED:-1} nice timeout 900 ./check $p --tier quick 2>&1); rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m2 VIOLATION | cut -c1-300)"
  [ $rc = 2 ] && echo "$out" | tail -5
  rm -rf /tmp/ct/$i
done
