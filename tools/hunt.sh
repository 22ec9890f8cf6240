#!/bin/bash
# tools/hunt.sh [ID...]: run each planted bug's check against a scratch copy of /repo with the bug applied
cd "$(dirname "$0")/.."; ids=${*:-$(ls seeded)}
for id in $ids; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  m=/tmp/hunt_$id; mkdir -p $m; cp -a /repo/dmpbbo /repo/src $m/ 2>/dev/null; cp -a /repo/CMakeLists.txt $m/ 2>/dev/null
  git -C /repo show HEAD:. >/dev/null 2>&1
  (cd $m && git init -q . 2>/dev/null; git apply "$OLDPWD/seeded/$id/patch.diff") || { echo "$id: patch does not apply"; rm -rf "/tmp/hunt_$id"; continue; }
  s=$SECONDS
  VERIF_EVIDENCE=/tmp/hunt_ev VERIF_REPO=$m timeout 900 ./check.py $p --tier quick > /tmp/hunt_$id.out 2>&1; rc=$?
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/hunt_$id.out | cut -c1-150)"
  rm -rf "/tmp/hunt_$id"
done
