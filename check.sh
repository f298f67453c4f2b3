#!/bin/bash
# check.sh PROP [thorough]  build the simulator from /repo's current tree and check one property
# check.sh replay FILE   replay a violation
# check.sh build         build only
# further: run PROP I | show PROP SEED | emit OUT SPEC [OP..] | dump PROP DIR | selftest | survey PROP | hunt
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_HOME="$here"
cd "$here/sim" || exit 3
build() { RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_TARGET_DIR="$here/sim/target" cargo build --release --offline --quiet 2>"$1"; }
log="$(mktemp)"
if ! build "$log"; then
  cat "$log" >&2; rm -f "$log"
  echo "the simulator does not build against /repo" >&2; exit 3
fi
rm -f "$log"
sim="$here/sim/target/release/sim"
case "$1" in
  build) exit 0 ;;
  replay|show|run|emit|dump|twice|one|selftest|survey|hunt) exec "$sim" "$@" ;;
  *) [ -n "$2" ] && export VERIF_TIER="$2"
     exec "$sim" check "$1" ;;
esac
