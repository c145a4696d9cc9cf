#!/bin/bash
# tools/seed.sh ID...: confirm planted changes in a scratch copy (bind-mounted over /repo in a private namespace) and run their checks on it
cd "$(dirname "$0")/.."; V=$PWD; W=/tmp/seedwork
rc=0
for id in "$@"; do
  S=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  mkdir -p $W; cp -a /repo/. $W/; git -C $W checkout -q -- . ; git -C $W apply --check $S/patch.diff || { echo "$id: DOES NOT APPLY"; rc=1; continue; }
  D=$(mktemp -d /tmp/seeddemo.XXXX); cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
  base=skip; if [ -z "$NOBASE" ]; then (cd /repo && timeout 300 bash $D/demo.sh >$D/base.log 2>&1); base=$?; fi
  git -C $W apply $S/patch.diff
  unshare -rm bash -c "mount --bind $W /repo; cd /repo; bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_test.log 2>&1; timeout 300 bash $D/demo.sh >$D/mut.log 2>&1; echo \$? >$D/rc"
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests'); 
m=[x for x in st if x not in o['passed']]
print('tests-ok' if not m else 'TESTS-FAIL %s'%m)
P
)
  c=skip; if [ -z "$NOCHECK" ]; then EF_REPO=$W python3 engine/check.py $prop >/tmp/seed_check.log 2>&1; c=$?; fi
  echo "$id ($prop): base=$base mutated=$(cat $D/rc) $t check=$c $(grep -m1 -B1 '^VIOLATION' /tmp/seed_check.log | head -1 | cut -c1-220)"
  [ "$base" != skip -a "$base" != 0 ] && tail -3 $D/base.log; [ "$(cat $D/rc)" = 0 ] && tail -3 $D/mut.log
  case $D in /tmp/seeddemo.*) find "$D" -delete;; esac
  git -C $W checkout -q -- .
done
exit $rc
