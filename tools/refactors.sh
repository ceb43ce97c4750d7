#!/bin/bash
# Applies each behaviour-preserving change of tools/refactors to /repo in turn and runs all checks (or those
# given) against it: all must stay quiet. Undoes the changes.
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
ids=${*:-G01 G02 S01 S02 S03 S04 S05 S06 S07 S08 S09 D01 D02 D03 C01 C02 I01 I02 I03}
for diff in ${DIFFS:-tools/refactors/*.diff}; do
    git -C /repo apply "$(realpath "$diff")" || exit 2
    for id in $ids; do
        out=$(./check.sh "$id" 2>&1)
        echo "$diff $id: exit $? $(tail -1 <<<"$out")"
        grep -B3 VIOLATION <<<"$out"
    done
    git -C /repo checkout -q -- .
done
