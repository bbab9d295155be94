#!/bin/bash
# evalseed.sh <id>...: confirm each planted bug in a scratch copy (builds, stable tests pass, demo tells) and
# run the check of its property against a patched /repo. For development only.
V=/verif; OUT=/root/seed; mkdir -p $OUT
for id in "$@"; do
  d=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; git checkout -q -- .
  bash $d/demo.sh >$OUT/$id.demo0 2>&1; c0=$?
  if ! git apply $d/patch.diff 2>$OUT/$id.apply; then echo "$id $P APPLY-FAIL"; continue; fi
  bash /opt/vp/build.sh >$OUT/$id.build 2>&1; b=$?
  bash /opt/vp/test.sh $OUT/$id.json >/dev/null 2>&1
  np=$(python3 -c "import json;print(len(json.load(open('$OUT/$id.json'))['passed']))")
  bash $d/demo.sh >$OUT/$id.demo1 2>&1; c1=$?
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick bash $V/run.sh $P >$OUT/$id.check 2>&1; ck=$?
  e=$(( $(date +%s) - s ))
  git checkout -q -- .
  v=$(grep -m1 -o 'VIOLATION.*' $OUT/$id.check | cut -c1-90)
  echo "$id $P demo=$c0/$c1 build=$b tests=$np check=$ck ${e}s $v"
done
cd /repo; git checkout -q -- .
