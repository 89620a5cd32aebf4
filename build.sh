#!/bin/bash
# Builds the simulator against /repo's current working tree.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
exec cargo build --offline "$@"
