#!/bin/bash
# plant.sh ID: takes /repo's uncommitted change as seeded/ID/patch.diff, then confirms it builds,
# passes the stable tests, fails seeded/ID/demo.sh, and that the demo passes without it. Always reverts /repo.
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 1
if ! git diff --quiet; then git diff > $D/patch.diff; else git apply $D/patch.diff || exit 1; fi
trap 'git -C /repo checkout -q -- .' EXIT
ok=1
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "BUILD FAILS"; ok=0; }
bash /opt/vp/test.sh /tmp/t.json >>/tmp/plant.log 2>&1; python3 /verif/tools/baseline.py
timeout 300 bash $D/demo.sh >/tmp/demo1.log 2>&1; r1=$?
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant.log 2>&1
timeout 300 bash $D/demo.sh >/tmp/demo0.log 2>&1; r0=$?
echo "$ID demo patched=$r1 clean=$r0"
