#!/bin/bash
# runs quick checks on a scratch copy with a behaviour-preserving patch applied: all have to stay quiet
# usage: runquiet.sh PATCH [IDS...]
here=$(cd "$(dirname "$0")/.." && pwd); cd "$here" || exit 1
patch=$(realpath "$1"); shift
[ $# = 0 ] && set -- $(python3 -c "import json; print(*[c['property_id'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || seq -f 'C%02g' 36)
. tools/sbx.sh
[ -s "$patch" ] && { git -C "$SBX/repo" apply "$patch" || exit 1; }
for id in "$@"; do
  (cd "$SBX/verif"; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} timeout ${LIM:-900} bin/check "$id" ${TIER:-quick} > "$SBX/out" 2>&1); rc=$?
  echo "$id rc=$rc $(tail -1 "$SBX/out" | cut -c1-150) $(grep -m1 "cannot be put" "$SBX/out")"
  [ $rc = 0 ] || cp "$SBX/out" "/tmp/rq.$id.out"
done
