#!/bin/bash
# usage: tryseed.sh ID [tests]: demo on the clean tree, then with the patch: build, demo, (stable tests), check; then undo.
ID=$1; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh --native-only >/tmp/seed_build.log 2>&1; bash /verif/seeded/$ID/demo.sh >/tmp/seed_demo0.log 2>&1; echo "$ID clean demo rc=$? (want 0)"
git apply /verif/seeded/$ID/patch.diff || exit 2
bash /opt/vp/build.sh --native-only >/tmp/seed_build.log 2>&1 || echo BUILD FAILED
bash /verif/seeded/$ID/demo.sh >/tmp/seed_demo1.log 2>&1; echo "$ID patched demo rc=$? (want nonzero)"; tail -2 /tmp/seed_demo1.log
(cd /verif && timeout 900 python3 check.py $P quick > /tmp/seed_check.log 2>&1; echo "$ID check $P rc=$? (want 1)"; grep -m2 -A1 "^VIOLATION" /tmp/seed_check.log; tail -1 /tmp/seed_check.log)
if [ "$2" = tests ]; then bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1; python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; d=json.load(open('/tmp/seed_t.json'))
print("missing stable tests:", [x for x in b if x not in d['passed']])
Q
fi
git -C /repo checkout -q -- .
bash /opt/vp/build.sh --native-only >/tmp/seed_build.log 2>&1
