#!/bin/bash
# usage: run.sh <property id> [quick|thorough]     decides one property on /repo's working tree
#        run.sh --build                            builds only
#        run.sh --replay FILE                      repeats a recorded failure
set -u
cd /verif || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
mkdir -p target scratch
ART=/verif/target/artifacts.json
export VP_ARTIFACTS=$ART
build() {
  # the library is always rebuilt from the working tree, whatever the time stamps say
  cargo clean --manifest-path harness/Cargo.toml --offline -q -p syntaxis -p vp-harness 2>/dev/null
  cargo build --manifest-path harness/Cargo.toml --offline --message-format=json-render-diagnostics >"$ART.tmp" 2>target/build.log || return 1
  mv "$ART.tmp" "$ART"
}
if ! build; then
  echo "ERROR the tree does not build"; tail -40 target/build.log
  exit 2
fi
case "${1:-}" in
  --build) exit 0 ;;
  --replay) exec target/debug/vp replay "$2" ;;
  *) exec target/debug/vp check "$1" ;;
esac
