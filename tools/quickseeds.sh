#!/bin/bash
# every planted bug (or those named) applied to /repo in turn; does the property's check report it?
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-seeded/*/}; do
  d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d does not apply"; continue; }
  python3 engine/check.py $p > /tmp/qs.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  grep -q "^VIOLATION property=$p " /tmp/qs.out && v=caught || v=MISSED
  echo "$(basename $d) rc=$rc $v"
done
