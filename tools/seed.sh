#!/bin/bash
# tools/seed.sh ID: take the diff of the scratch copy /tmp/wt, confirm it (build, stable tests, demo both ways),
# store it in seeded/ID and run the property's check against it. seeded/ID/{main.rs,meta.json} exist already.
ID=$1; S=/verif/seeded/$ID; W=/tmp/wt
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
if [ "$2" != again ]; then
git -C $W diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no diff"; exit 1; }
git -C $W checkout -q -- .
fi
cd /repo && bash $S/demo.sh >/tmp/d0.txt 2>&1; a=$?
git -C /repo apply $S/patch.diff || exit 1
bash $S/demo.sh >/tmp/d1.txt 2>&1; b=$?
echo "demo unchanged=$a patched=$b"; tail -2 /tmp/d0.txt; tail -3 /tmp/d1.txt | cut -c1-300
bash /opt/vp/test.sh /tmp/wt-out.json >/tmp/wt-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/wt-out.json'))
bs=set(b['stable']); ps=set(o.get('passed') or [])
print('stable', len(bs), 'missing', sorted(bs-ps)[:5])
P
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /verif && python3 check.py $P quick 2>&1 | cut -c1-700 | tail -6)
git -C /repo checkout -- .
