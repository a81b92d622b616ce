#!/bin/bash
# plant.sh NAME PROPERTY : take /repo's working-tree diff as planted bug NAME; verify it; undo it.
# beforehand: /verif/seeded/NAME/main.rs (demo program) + DEPS (cargo dependency lines, @REPO@ = repository) + meta.json
n=$1; p=$2; d=/verif/seeded/$n
cd /repo; git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "empty diff"; exit 1; }
cp /verif/tools/demo_template.sh $d/demo.sh
git checkout -q -- .
bash $d/demo.sh >/tmp/plant0.log 2>&1; r0=$?
git apply $d/patch.diff
bash $d/demo.sh >/tmp/plant1.log 2>&1; r1=$?
t=$(bash /verif/tools/rtest.sh 2>&1 | grep -a "stable\|error" | head -3)
pkg=$(python3 - <<P
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p' if 'property' in c else c.get('id')=='$p': print(c.get('quick_cmd', c.get('quick','')) )
P
)
c=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$pkg" 2>&1 | grep -a "VIOLATION\|error" | head -2)
git checkout -q -- .
echo "== $n ($p): demo $r0 -> $r1 | $t | check: ${c:-NOT CAUGHT} "
[ $r0 = 0 ] || tail -5 /tmp/plant0.log
tail -2 /tmp/plant1.log
