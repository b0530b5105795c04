#!/bin/bash
# tools/seed.sh ID : validate one seeded bug in a scratch copy (builds, stable tests pass, demo fails with / passes without), then run the property's check on /repo with the patch
set -u
V=/verif; ID=$1; S=$V/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
if [ "${2:-}" != fast ]; then
bash /opt/vp/build.sh >/tmp/w/b0.log 2>&1 || { echo base build failed; exit 1; }
bash $S/demo.sh >/tmp/w/demo0.log 2>&1; echo "demo on base: $?"
fi
git apply $S/patch.diff || exit 1
if [ "${2:-}" != fast ]; then
bash /opt/vp/build.sh >/tmp/w/b1.log 2>&1 || echo "BUILD FAILED with patch"
bash /opt/vp/test.sh /tmp/w/o1.json >/tmp/w/t1.log 2>&1
python3 - <<'Q'
import json
d=json.load(open('/tmp/w/o1.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print("stable failing with patch:", sorted(set(b['stable'])-set(d['passed'])))
Q
bash $S/demo.sh >/tmp/w/demo1.log 2>&1; echo "demo with patch: $?"
fi
(cd $V && python3 engine/run.py $P > /tmp/w/chk.log 2>&1); echo "check $P: exit $?"; grep -A1 VIOLATION /tmp/w/chk.log | head -4 | cut -c1-300
git checkout -q -- .
