#!/bin/bash
# check.sh <property> <quick|thorough>   build the simulator from /repo's working tree and search
# check.sh replay <file>                 run a replay file again
# check.sh build                         only build
here="$(cd "$(dirname "$0")" && pwd)"
export FOLIA_VERIF="${FOLIA_VERIF:-$here}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
target="$here/sim/target"
log="$here/sim/build.log"
fail() { echo "$1"; tail -30 "$log"; exit 2; }
# cargo goes by modification times; go by content
stale() {
  sum="$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum < "$here/sim/rustc-cover.sh") | sha256sum)"
  if [ "$sum" != "$(cat "$1/folia.sum" 2>/dev/null)" ]; then
    mkdir -p "$1"
    for d in "$1"/debug/.fingerprint/folia-[0-9a-f]*; do [ -d "$d" ] && rm -rf "$d"; done
  fi
}
# the simulator: for C12 with a scheduling point on every edge of the library's control flow
simulator() {
  stale "$1"
  ( cd "$here/sim" && CARGO_TARGET_DIR="$1" FOLIA_EDGES="$2" RUSTC_WRAPPER="$here/sim/rustc-cover.sh" cargo build --offline ) >"$log" 2>&1 || fail "the simulator does not build:"
  echo "$sum" > "$1/folia.sum"
}
# the command line tool, and the shim that puts its system calls under the plan's control
tool() {
  stale "$target/cli"
  ( cd /repo && CARGO_TARGET_DIR="$target/cli" cargo build --offline --bin folialintr ) >>"$log" 2>&1 || fail "folialintr does not build:"
  echo "$sum" > "$target/cli/folia.sum"
  [ "$target/shim.so" -nt "$here/sim/shim.c" ] || gcc -O1 -shared -fPIC -o "$target/shim.so" "$here/sim/shim.c" -ldl >>"$log" 2>&1 || fail "the shim does not build:"
  export FOLIA_LINTR="$target/cli/debug/folialintr" FOLIA_SHIM="$target/shim.so"
}
prepare() {
  case "$1" in
    C12) simulator "$target/c12" call; exe="$target/c12/debug/folia-sim" ;;
    *) simulator "$target" flag; exe="$target/debug/folia-sim" ;;
  esac
  [ "$1" = C17 ] && tool
}
case "$1" in
  build) prepare C12; prepare C17 ;;
  replay) prepare "$(grep -o '"property": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')"; exec "$exe" replay "$2" ;;
  *) prepare "$1"; exec "$exe" check "$1" "${2:-${VERIF_TIER:-quick}}" 2>"$here/sim/check.log" ;;
esac
