#!/bin/bash
# Runs demo.py against the server built from the tree in the current directory (/repo).
here=$(cd "$(dirname "$0")" && pwd); tree=$(pwd)
. /opt/vp/env.sh; cd "$tree" || exit 1
[ "$tree" = /repo ] || export CARGO_TARGET_DIR=$tree/target
cargo build --bin nexo --offline --locked >/dev/null 2>&1 || { echo "build failed"; exit 2; }
NEXO_BIN=$CARGO_TARGET_DIR/debug/nexo exec timeout 280 python3 -B "$here/demo.py"
