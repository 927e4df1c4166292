#!/bin/bash
# tryseed.sh ID... : demo on clean and patched tree, and the property's check on the patched tree (no test run)
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "dirty /repo"; exit 1; }
bash $d/demo.sh > /tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
bash $d/demo.sh > /tmp/demo2.out 2>&1; b=$?
(cd /verif && python3 check.py $prop > /tmp/check.out 2>&1); c=$?
t=skipped
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seedtest.json > /dev/null 2>&1; t=$(python3 -c "
import json
o=set(json.load(open('/tmp/seedtest.json'))['passed']); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in o]; print('ok' if not m else 'BROKEN '+str(m[:3]))"); fi
git checkout -q -- .
echo "$id $prop: demo clean=$a patched=$b; tests $t; check exit=$c: $(grep -a VIOLATION /tmp/check.out | cut -c1-160)"
[ $a = 0 ] || cut -c1-300 /tmp/demo.out | head -5
[ $c = 1 ] || cut -c1-300 /tmp/check.out | tail -3
grep -a "failing input\|failed obl" /tmp/check.out | cut -c1-220 | head -2
done
