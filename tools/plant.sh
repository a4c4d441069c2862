#!/bin/bash
# plant.sh ID : confirm seeded/ID (patch.diff made from /repo's uncommitted change if any,
# else applied from the file); then run the property's check against it.
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
if ! git diff --quiet; then git diff > "$d/patch.diff"; git checkout -q -- .; fi
ok=1
bash "$d/demo.sh" >/tmp/plant_clean.log 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/plant_clean.log; ok=0; }
git apply "$d/patch.diff" || exit 2
timeout 300 bash "$d/demo.sh" >/tmp/plant_bug.log 2>&1 && { echo "DEMO PASSES WITH BUG"; ok=0; }
if [ "$2" != "notest" ]; then
bash /opt/vp/test.sh /tmp/plant_out.json >/dev/null 2>&1
python3 - <<'P' || ok=0
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant_out.json'))
m=set(b['stable'])-set(o['passed'])
if m: print("TESTS BROKEN",m); sys.exit(1)
P
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -f /verif/checks/$(echo $p | tr C c).py ]; then (cd /verif && /opt/venv/bin/python harness/check.py $p 2>&1 | tail -4); fi
git checkout -q -- .
git status --short
echo "== $id ok=$ok"
