#!/bin/bash
# tools/trybugs.sh [id ...]: apply each planted change to a scratch copy of /repo and
# run its property's quick check against that copy (DORADO_REPO)
v=$(cd "$(dirname "$0")/.." && pwd)
ids="$*"; [ -n "$ids" ] || ids=$(ls "$v/seeded")
for id in $ids; do
  t=$(mktemp -d /tmp/try.XXXX); git clone -q /repo "$t/repo"
  git -C "$t/repo" apply "$v/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$t"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); DORADO_REPO="$t/repo" timeout 900 "$v/bin/check" "$p" ${TIER:-quick} > "$t/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -h -m1 -E 'VIOLATION|TOOL' "$t/out" | cut -c1-100) $(grep -h -m1 clause "$t/out"|cut -c1-120)"
  rm -rf "$t"
done
