#!/bin/bash
# tools/try_seed.sh ID [CHECK...]: apply seeded/ID to /repo, build, run the tests, its demo and
# the given checks (default: the property's own), and undo it.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ID=$1; shift
S=/verif/seeded/$ID
PROP=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${@:-$PROP}
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh >/tmp/demo$MPCV_SLOT.out 2>&1; A=$?
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/seed$MPCV_SLOT.json >/tmp/seed$MPCV_SLOT.log 2>&1
T=$(python3 -c "import json;d=json.load(open('/tmp/seed$MPCV_SLOT.json'));print('%d passed %d failed'%(len(d['passed']),len(d['failed'])))")
bash $S/demo.sh >/tmp/demo${MPCV_SLOT}2.out 2>&1; B=$?
R=""
for c in $CHECKS; do
  (cd /verif && python3 run.py $c --tier quick >/tmp/seed$MPCV_SLOT.$c.out 2>&1); r=$?
  R="$R $c=$r($(grep -c '^VIOLATION' /tmp/seed$MPCV_SLOT.$c.out))"
done
echo "$ID [$PROP]: demo $A -> $B; tests $T; checks:$R"
[ $A = 0 ] || tail -5 /tmp/demo$MPCV_SLOT.out
