#!/bin/bash
# try.sh <seed id>...: applies each planted bug to /repo, runs its property's check (and extra checks in $ALSO), undoes it
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  for c in $p $ALSO; do
    out=$(bin/check $c 2>&1); rc=$?
    echo "$id $c rc=$rc $(echo "$out" | grep -c VIOLATION) :: $(echo "$out" | grep -A1 VIOLATION | grep -v -- -- | sed -n 2p | cut -c1-150)$([ $rc = 2 ] && echo "$out" | tail -5)"
  done
  git -C /repo checkout -- .
done
