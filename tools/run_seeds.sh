#!/bin/bash
# Runs each planted bug (all, or those named) against the check of its property.
cd "$(dirname "$0")/.." || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$SECONDS
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh "$prop" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then v=caught; else v=MISSED; fi
  echo "$id: $v rc=$rc $((SECONDS-t))s $(grep '^VIOLATION' <<<"$out" | head -1)"
done
