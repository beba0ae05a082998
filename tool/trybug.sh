#!/bin/bash
# tool/trybug.sh ID [nocheck]: demo on the unchanged tree, then apply, build, test, demo, check; always undone.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
git apply --check $S/patch.diff || exit 1
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1; bash $S/demo.sh >/tmp/tb.demo0 2>&1; d0=$?
fi
git apply $S/patch.diff
if [ "$2" != checkonly ]; then
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
t=$(python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
st=b.get('passed') or b.get('stable') or b
print('tests-ok' if set(st)<=set(r['passed']) else 'TESTS-FAIL %s'%(set(st)-set(r['passed'])))
X
)
bash $S/demo.sh >/tmp/tb.demo1 2>&1; d1=$?
fi
cd /verif; bin/check $P >/tmp/tb.chk 2>&1; c=$?
echo "$1 [$P]: demo-clean=$d0 $t demo-bug=$d1 check=$c $(grep -c VIOLATION /tmp/tb.chk)"
[ $c = 1 ] && grep -m1 '^  \[' /tmp/tb.chk | cut -c1-150
git -C /repo checkout -q -- .
