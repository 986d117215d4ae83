#!/bin/bash
# plant.sh ID [--nocheck]: confirms a planted bug in a private copy of /repo (bind-mounted over /repo in a namespace of its own):
# demo passes on the unchanged tree, patch applies and builds, stable tests pass, demo fails; then runs the property's check on it.
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID; W=/tmp/pl/$ID
mkdir -p /tmp/pl; rm -rf "/tmp/pl/$ID"; cp -a /repo "$W"; mkdir -p /tmp/pl/$ID.demo; cp "$S"/* /tmp/pl/$ID.demo/; rm -f /tmp/pl/$ID.demo/*.diff /tmp/pl/$ID.demo/meta.json
unshare -Urm bash -c "
mount --bind $W /repo; cd /repo
bash /opt/vp/build.sh > /tmp/pl/$ID.b0 2>&1 || { echo build0 failed; exit 1; }
timeout 300 bash /tmp/pl/$ID.demo/demo.sh > /tmp/pl/$ID.d0 2>&1; echo demo-unchanged=\$?
git apply $S/patch.diff || { echo apply failed; exit 1; }
bash /opt/vp/test.sh /tmp/pl/$ID.json > /tmp/pl/$ID.t 2>&1; echo tests: 
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/pl/$ID.json'))
s=b.get('stable') or b.get('passed') or b
miss=[t for t in s if t not in r['passed']]
print('  passed',len(r['passed']),'failed',len(r['failed']),'stable missing',miss)
P
timeout 300 bash /tmp/pl/$ID.demo/demo.sh > /tmp/pl/$ID.d1 2>&1; echo demo-patched=\$?
"
tail -3 /tmp/pl/$ID.d1
if [ "$2" != --nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd "$V" && VERIF_REPO=$W VERIF_EVIDENCE=/tmp/pl/$ID.ev python3-vt sa/run.py "$P" quick | tail -5; echo "check=${PIPESTATUS[0]}"
fi
rm -rf "/tmp/pl/$ID" "/tmp/pl/$ID.demo"
