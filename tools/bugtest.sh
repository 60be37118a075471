#!/bin/bash
# bugtest.sh ID...: confirms planted changes in a scratch copy of /repo (bind
# mounted over /repo in a private mount namespace): builds, stable tests pass,
# demo fails with the patch and passes without it.
for id in "$@"; do
  W=/tmp/wt_$id
  S=/verif/seeded/$id
  rm -rf "/tmp/wt_$id" "/tmp/demo_$id"
  cp -a /repo $W && cp -r $S /tmp/demo_$id
  unshare -Urm bash -c "
    mount --bind $W /repo || exit 9
    cd /repo
    git apply $S/patch.diff || { echo $id: patch does not apply; exit 1; }
    bash /opt/vp/build.sh > /tmp/bt_$id.build 2>&1 || { echo $id: build failed; tail -5 /tmp/bt_$id.build; exit 1; }
    (cd /repo && timeout 300 bash /tmp/demo_$id/demo.sh > /tmp/bt_$id.demo 2>&1); echo $id: demo with patch rc=\$?
    [ -n \"$SKIPTESTS\" ] && exit 0
    bash /opt/vp/test.sh /tmp/bt_$id.json > /tmp/bt_$id.test 2>&1
    python3 - <<P
import json
d=json.load(open('/tmp/bt_$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
names=b.get('passed') or b.get('stable') or b
missing=set(names)-set(d['passed'])
print('$id: tests', len(d['passed']), 'missing', sorted(missing)[:8])
P
  "
  rm -rf "/tmp/wt_$id" "/tmp/demo_$id"
done
