#!/bin/bash
# tryseed.sh <id>: demo on clean tree, apply, build, tests, demo, check; undo
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
crate=$(python3 -c "
import sys;sys.path.insert(0,'/verif/tools');import props
print([p['crate'] for p in props.PROPS if p['id']=='$prop'][0])")
cd /repo
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || exit 8
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/build.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/out.json'))
print('missing tests:', sorted(b-set(o.get('passed',[])))[:5])
P
fi
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $?"; fi
cd /verif; bash check.sh $crate $prop --quick > /tmp/check.log 2>&1; echo "check $prop: $?"; grep -E "VIOLATION|violation class|CHECK-ERROR" /tmp/check.log
git -C /repo checkout -q -- .
git -C /repo status --short
