#!/bin/bash
# Build the harness (and with it /repo's crates) once.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$here/target
cd "$here/harness" && cargo build --offline
