#!/bin/bash
# dev/detect.sh ID...: run the property's quick check against a scratch copy with the planted change
cd "$(dirname "$0")/.."
WT=${WT:-/tmp/wt}
for id in "$@"; do
  git -C $WT checkout -q -- . && git -C $WT apply $PWD/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s); NAGINI_REPO=$WT timeout 900 ./run.sh $p quick >/tmp/detect_$id.out; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(grep VIOLATION /tmp/detect_$id.out | head -2 | tr '\n' ' ')"
  git -C $WT checkout -q -- .
done
