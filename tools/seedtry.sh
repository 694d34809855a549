#!/bin/bash
# seedtry.sh ID... : confirm a planted change in a scratch copy of /repo (builds, stable tests pass, demo fails; demo passes without)
S=${SEEDTRY_DIR:-/tmp/seedtry}
mkdir -p "$S"
[ -d "$S/repo" ] || cp -a /repo "$S/repo"
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D="$V/seeded/$id"
  ( cd "$S/repo" && rsync -rlp --checksum --delete /repo/.git/ .git/ && rsync -rlp --checksum --delete /repo/src/ src/ )
  ninja -C "$S/repo/_build" >/dev/null || { echo "$id: base build failed"; continue; }
  ( cd "$S/repo" && timeout 300 bash "$D/demo.sh" >"$S/demo0.log" 2>&1 ); r0=$?
  ( cd "$S/repo" && git apply "$D/patch.diff" ) || { echo "$id: does not apply"; continue; }
  ninja -C "$S/repo/_build" >"$S/build.log" 2>&1; rb=$?
  rm -rf "$S/rep"; mkdir -p "$S/rep"
  ( cd "$S/repo" && TZ=UTC python3 /opt/vp/run_tests.py _build "$S/rep" && python3 /opt/vp/results.py "$S/res.json" "junit:$S/rep/unit-*.xml" "lines:$S/rep/extra.txt" && python3 - "$S/res.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
names=b.get('passed') or b.get('stable') or b
miss=[n for n in names if n not in r['passed']]
print('failed stable tests:',miss[:5]); sys.exit(1 if miss else 0)
P
  ) >"$S/test.log" 2>&1; rt=$?
  ( cd "$S/repo" && timeout 300 bash "$D/demo.sh" >"$S/demo1.log" 2>&1 ); r1=$?
  ( cd "$S/repo" && rsync -rlp --checksum --delete /repo/src/ src/ )
  v=BAD; [ $r0 = 0 ] && [ $rb = 0 ] && [ $rt = 0 ] && [ $r1 != 0 ] && v=ok
  echo "$id: $v (demo before=$r0 build=$rb tests=$rt demo after=$r1)"
done
