#!/bin/bash
# seed.sh ID [nochk]: confirms a planted bug: demo passes without and fails with the patch, package tests
# still pass with it, and the property's check catches it. /repo is restored afterwards.
cd /verif
for id in "$@"; do
D=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/demo.0 2>&1); r0=$?
git -C /repo apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; rb=$?
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/demo.1 2>&1); r1=$?
rt=skip
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed.test.json >/dev/null 2>&1
rt=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/seed.test.json'))['passed']);print(len(b-o))")
fi
bash run.sh $P quick >/tmp/seed.chk 2>&1; rc=$?
git -C /repo checkout -q -- .
v=$(grep -c "^VIOLATION property=$P" /tmp/seed.chk)
echo "$id $P: demo clean=$r0 patched=$r1 build=$rb tests-lost=$rt check=$rc violation=$v"
done
