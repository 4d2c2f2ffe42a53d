#!/bin/bash
# detect.sh ID...: apply each planted bug to a scratch copy of /repo and run its property's
# quick check (or those in CHECKS) against the copy
cd /verif
for id in "$@"; do
  p=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  r=/tmp/detect.$id.repo
  rm -rf $r; cp -a /repo $r; git -C $r checkout -q -- .
  git -C $r apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf $r; continue; }
  for c in $p; do
    s=$(date +%s)
    VERIF_REPO=$r VERIF_SHORT=1 VERIF_VERBOSE=1 timeout 900 /opt/venv/bin/python run.py $c quick > /tmp/detect.$id.$c.log 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -A1 'violations=[1-9]' /tmp/detect.$id.$c.log | tr '\n' ' ' | cut -c1-${W:-260})"
  done
  rm -rf $r
done
