#!/bin/bash
# catch.sh ID [PROP...]: apply seeded/ID to /repo, run the quick check of its property (or PROPs), revert.
ID=$1; shift; D=/verif/seeded/$ID
P=${@:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for p in $P; do VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p quick > /tmp/catch.log 2>&1; echo "$ID $p exit=$? $(grep -m1 VIOLATION /tmp/catch.log)"; done
