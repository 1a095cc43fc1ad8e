#!/bin/bash
# seed.sh ID: try a planted bug in a scratch copy of /repo: builds, passes the tests, demo passes before and fails after.
# The scratch copy is kept in /tmp/scratch/repo between calls (remove it when done).
id=$1; d=/verif/seeded/$id
mkdir -p /tmp/scratch
[ -d /tmp/scratch/repo ] || cp -a /repo /tmp/scratch/repo
cd /tmp/scratch/repo || exit 1
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/scratch/repo/target
b() { cargo build --locked --offline 2>&1 | grep -E "^(error|warning: unused)|Finished" | tail -3; }
b
bash $d/demo.sh > /tmp/scratch/clean.log 2>&1; echo "demo on the clean tree: $?"; tail -3 /tmp/scratch/clean.log
git apply $d/patch.diff || exit 1
for l in $(git diff -U0 | grep -c '^-[^-]'); do echo "$l changed lines"; done
# blame: every removed line must come from the base commit
git diff -U0 | awk '/^--- a\//{f=substr($2,3)} /^@@/{split($2,a,","); s=-a[1]; n=(a[2]==""?1:a[2]); if(n>0) print f, s, s+n-1}' | while read f s e; do git blame -s -L $s,$e HEAD -- $f | grep -v "^^" | sed 's/^/NOT BASE: /' | cut -c1-120; done
cargo test --workspace --no-run --locked --offline 2>&1 | grep -E "^error|warning: unused" | head
bash $d/demo.sh > /tmp/scratch/bug.log 2>&1; echo "demo with the bug: $?"; tail -3 /tmp/scratch/bug.log
if [ "$2" = tests ]; then cargo test --workspace --locked --offline 2>&1 | grep -E "^test .*FAILED|panicked" | head -5; fi
git checkout -q -- .
