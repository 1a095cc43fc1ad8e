#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's current tree and run one check.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$here/target
export SSL_CERT_FILE=/dev/null SSL_CERT_DIR=/nonexistent
cd "$here/harness" || exit 2
if ! out=$(cargo build --offline 2>&1); then
  echo "$out" | tail -60
  echo "check $id: the harness does not build against /repo"
  exit 2
fi
cd "$here" || exit 2
exec "$here/target/debug/oromc" check "$id" $([ "$tier" = thorough ] && echo thorough)
