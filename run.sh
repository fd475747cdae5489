#!/bin/bash
# run.sh Cxx [args]: rebuild the harness from /repo's working tree and run one monitor
D="$(cd "$(dirname "$0")" && pwd)"
case "$1" in
  C22|C23|C31) BIN=hplcodec ;;
  *) BIN=hplmon ;;
esac
LOG="$(mktemp)"
if ! "$D/build.sh" --bin $BIN >"$LOG" 2>&1; then
  tail -40 "$LOG"; rm -f "$LOG"
  echo "BUILD-FAILED: harness does not build against /repo"
  exit 3
fi
rm -f "$LOG"
export HPLMON_BASE="$D"
exec "$D/.build/release/$BIN" "$@"
