#!/bin/bash
# seedrun.sh ID... : run the check of each planted change's property against a scratch copy with the change
V=$(cd "$(dirname "$0")/.." && pwd)
W=${SEEDRUN_DIR:-/tmp/seedrun}
for id in "$@"; do
  rm -rf "$W"; mkdir -p "$W"; cp -a /repo/. "$W/"
  ( cd "$W" && git apply "$V/seeded/$id/patch.diff" ) || { echo "$id no apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_REPO="$W" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 "$V/tools/check.py" run $p > "/tmp/seedrun.$id.log" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedrun.$id.log | cut -c1-80)"
done
rm -rf "$W"
