#!/bin/bash
# tools/tryseed.sh ID...  - demo on clean tree, then with the patch: unit tests, stable tests, demo, check. Undoes the patch.
cd /repo
R=/tmp/seedres; mkdir -p $R
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git diff --quiet || { echo "repo dirty"; exit 1; }
  bash $D/demo.sh > $R/$id.clean 2>&1; c=$?
  git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash $D/demo.sh > $R/$id.demo 2>&1; d=$?
  u=-; [ -f /tmp/ut.sh ] && u=$(bash /tmp/ut.sh 5000 2>&1 | grep -m1 '^test result' | grep -o '[0-9]* passed; [0-9]* failed')
  s=-
  bash /opt/vp/build.sh > $R/$id.build 2>&1; s=$?
  bash /opt/vp/test.sh $R/$id.json > $R/$id.test 2>&1; s=$s,$(python3 - <<PY
import json
try:
    r=json.load(open('$R/$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    print(len(r.get('failed',[])))
except Exception as e: print(e)
PY
)
  SEC=$SECONDS; (cd /verif && timeout 900 ./check.sh ${CHECK:-$P} quick > $R/$id.check 2>&1); k=$?
  git checkout -q -- .
  v=$(grep -c "^VIOLATION property=$P" $R/$id.check)
  echo "$id $P demo clean=$c patched=$d unit=[$u] build,stablefail=$s check=$k violations=$v $((SECONDS-SEC))s"
done
