#!/bin/bash
# tools/caught.sh [ID...]: runs the property's check against each planted bug.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || continue
  t=$(date +%s)
  timeout 900 ./check.sh $p > /tmp/caught.one 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t ))s $(grep VIOLATION /tmp/caught.one | head -1 | cut -c1-160) $(grep -A2 VIOLATION /tmp/caught.one | sed -n 2,3p | cut -c1-260 | tr '\n' ' ')"
  [ $rc = 1 ] || tail -3 /tmp/caught.one | cut -c1-300
done
