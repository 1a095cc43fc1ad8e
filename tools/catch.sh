#!/bin/bash
# catch.sh SEED CHECK...: run checks against /repo with a planted bug applied, then undo it.
s=$1; shift
git -C /repo apply /verif/seeded/$s/patch.diff || exit 1
for c in "$@"; do timeout 900 bash /verif/check.sh $c quick 2>&1 | cut -c1-${W:-300} | tail -${N:-3}; echo "$s $c exit ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
