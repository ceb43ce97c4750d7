#!/bin/bash
# Undoes each repair in /repo's working tree, one at a time, and runs the check of its property.
cd "$(dirname "$0")/.." || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
grep '^fixed:' known_findings.txt | while read -r _ prop commit _; do
  prop=${prop#property=}
  git -C /repo diff "$commit" "$commit~1" | git -C /repo apply -C1 2>/dev/null || { echo "$commit $prop: does not apply in reverse"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh "$prop" 2>&1 </dev/null); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then v=reported; else v="NOT REPORTED"; fi
  echo "$commit $prop: $v rc=$rc"
done
