#!/bin/bash
# plant.sh ID: turn the uncommitted edits in the scratch copy /tmp/pp into seeded/ID/patch.diff and confirm that
# it builds, passes the tests, that demo.sh fails with it and passes without it; then run the check of its property.
# The copy is mounted over /repo in a mount namespace of its own: the real /repo is never touched.
set -e
id=$1; D=/verif/seeded/$id
test -f $D/demo.cpp && test -f $D/meta.json
[ -f $D/demo.sh ] || cp /verif/tools/demo.sh $D/demo.sh
cp /verif/harness/compat/compat.hpp /verif/harness/compat/eigen_begin_end.inc $D/
git -C /tmp/pp diff --quiet && { git -C /tmp/pp apply $D/patch.diff; }
git -C /tmp/pp diff > $D/patch.diff
cat > /tmp/pp.in.sh <<'I'
set -e
mount --bind /tmp/pp /repo
cd /repo
bash /opt/vp/build.sh >/tmp/pp.build 2>&1 || { tail -20 /tmp/pp.build; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/pp.json >/tmp/pp.test 2>&1 || true
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/pp.json'))
m=b-set(r['passed']); print('tests passed:',len(b)-len(m),'missing:',m)
P
set +e
timeout 300 bash $1/demo.sh >/tmp/pp.demo1 2>&1; a=$?
git checkout -q -- . && bash /opt/vp/build.sh >/tmp/pp.build 2>&1
timeout 300 bash $1/demo.sh >/tmp/pp.demo2 2>&1; b=$?
echo "demo: patched exit $a, clean exit $b"; tail -3 /tmp/pp.demo1; [ $b = 0 ] || tail -5 /tmp/pp.demo2
I
unshare -m bash /tmp/pp.in.sh $D
p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /tmp/pp apply $D/patch.diff
cd /verif; PBT_REPO=/tmp/pp timeout 900 python3 run.py $p quick 2>&1 | tail -4; echo "check exit ${PIPESTATUS[0]}"
git -C /tmp/pp checkout -q -- .
git -C /verif checkout -q -- evidence 2>/dev/null || true
