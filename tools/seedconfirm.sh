#!/bin/bash
# seedconfirm.sh ID [notest]: confirms a planted bug in a scratch copy that is bind-mounted over /repo in a private mount namespace:
# demo passes without, patch applies, builds, stable tests pass, demo fails with it.
ID=$1; MODE=$2
D=/tmp/sd/$ID; rm -rf /tmp/sd/"$ID"; mkdir -p "$D"
cp -a /repo "$D/repo"; cp -a /verif/seeded/"$ID" "$D/seed"
# hide the patch from the demo as the final check does
cp "$D/seed/patch.diff" "$D/patch.diff"; rm -f "$D/seed/patch.diff" "$D/seed/meta.json"
cat > "$D/inner.sh" <<'I'
D=$1; MODE=$2
mount --bind "$D/repo" /repo || exit 9
cd /repo
bash /opt/vp/build.sh > "$D/build0.log" 2>&1 || { echo BASEBUILD-FAIL; exit 1; }
timeout 300 bash "$D/seed/demo.sh" > "$D/demo0.log" 2>&1; echo "demo on unchanged: $?"
git apply "$D/patch.diff" || { echo APPLY-FAIL; exit 1; }
bash /opt/vp/build.sh > "$D/build1.log" 2>&1 || { echo BUILD-FAIL; exit 1; }
timeout 300 bash "$D/seed/demo.sh" > "$D/demo1.log" 2>&1; echo "demo with bug: $?"
if [ "$MODE" != notest ]; then
flock /tmp/sd/testlock bash /opt/vp/test.sh "$D/out.json" > "$D/test.log" 2>&1
python3 - "$D/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=set(b.get('stable') or b.get('passed') or b.get('stable_tests') or [])
miss=sorted(st-set(o['passed']))
print('stable',len(st),'missing',miss)
P
fi
I
unshare -Urm bash "$D/inner.sh" "$D" "$MODE" 2>&1 | sed "s/^/$ID: /"
rm -rf /tmp/sd/"$ID"/repo
