#!/bin/bash
# runs the quick check of each planted bug's property on a scratch copy with the bug applied, one after another
here=$(cd "$(dirname "$0")/.." && pwd); cd "$here" || exit 1
[ $# = 0 ] && set -- $(ls seeded)
. tools/sbx.sh
for id in "$@"; do
  d=seeded/$id; [ -d "$d" ] || d=/tmp/loose/$id; d=$(realpath "$d")
  prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  git -C "$SBX/repo" apply "$d/patch.diff" || { echo "$id APPLY-FAIL"; continue; }
  s=$(date +%s)
  (cd "$SBX/verif"; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bin/check "$prop" quick > "$SBX/out" 2>&1); rc=$?
  git -C "$SBX/repo" checkout -q -- .
  v=$(grep -m1 "^VIOLATION property=$prop" "$SBX/out")
  [ $rc = 1 ] && [ -n "$v" ] && r=CAUGHT || r=MISSED
  echo "$id $prop $r rc=$rc $(( $(date +%s) - s ))s $(grep -v '^VIOLATION\|^OK' "$SBX/out" | tail -1 | cut -c1-150)"
done
