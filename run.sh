#!/bin/bash
# run.sh <property> [quick|thorough] [extra args for the runner]
# Rebuilds the harness crate that decides <property> from /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 3
. ./env.sh
export VERIF_DIR="$PWD"
P="$1"; shift
case "$1" in quick|thorough) VERIF_TIER="$1"; shift;; esac
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
C=$(awk -v p="$P" '$1==p{print $2}' checks.map)
[ -n "$C" ] || { echo "ERROR: unknown property $P"; exit 3; }
LOG="$CARGO_TARGET_DIR/build-$C-$$.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! (cd "h/$C" && cargo build --offline -q) >"$LOG" 2>&1; then
  tail -n 60 "$LOG"; rm -f "$LOG"; echo "ERROR: the harness crate $C does not build against /repo"; exit 3
fi
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/debug/v$C" "$P" "$@"
