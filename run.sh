#!/bin/bash
# run.sh build          build the checker from /repo's working tree
# run.sh ID [...]       build, then check property ID (VERIF_TIER=quick|thorough)
# run.sh replay FILE    build, then replay a recorded violation
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export MC_ROOT=$ROOT
export CARGO_TARGET_DIR=${MC_TARGET:-$ROOT/harness/target}
export CARGO_NET_OFFLINE=true
if rustup toolchain list 2>/dev/null | grep -q '^stable-x86_64-unknown-linux-gnu'; then
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
fi
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence" "$ROOT/replays"
# cargo decides by modification times; where a source changed without a newer time, drop its record
SUMS=$CARGO_TARGET_DIR/repo.sums
NEW=$CARGO_TARGET_DIR/repo.sums.$$
find /repo/contracts /repo/packages -name '*.rs' -o -name Cargo.toml | LC_ALL=C sort | xargs sha256sum >"$NEW" 2>/dev/null
if [ -f "$SUMS" ] && ! cmp -s "$SUMS" "$NEW"; then
  diff "$SUMS" "$NEW" | sed -n 's/^[<>] [0-9a-f]*  //p' | sort -u | while read -r f; do
    if [ ! -e "$f" ] || [ ! "$f" -nt "$SUMS" ]; then
      find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -name 'astro*' -type d -exec rm -rf {} +
      break
    fi
  done
fi
LOG=$CARGO_TARGET_DIR/build.$$.log
T0=$SECONDS
(cd harness && exec cargo build --offline --locked --bin mc) >"$LOG" 2>&1
RC=$?
if [ $RC -ne 0 ]; then
  grep -E '^error' -A8 "$LOG" | head -60
  tail -5 "$LOG"
  echo "BUILD FAILED (exit $RC)"
  rm -f "$LOG" "$NEW"
  exit 2
fi
mv "$NEW" "$SUMS"
rm -f "$LOG"
echo "built in $((SECONDS - T0)) s" >&2
case "$1" in
  build) exit 0 ;;
  replay) exec "$CARGO_TARGET_DIR/debug/mc" replay "$2" ;;
  *) ulimit -v 26000000; exec "$CARGO_TARGET_DIR/debug/mc" check "$@" ;;
esac
