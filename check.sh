#!/bin/bash
# check.sh Cxx: builds the monitor against /repo's current working tree and runs one property's check.
# Exit 0: held on everything explored; 1 + VIOLATION line: broken; anything else: no verdict.
PROP=$1
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
case $PROP in C30) VERIF_VARIANTS="asan miri";; C32) VERIF_VARIANTS="tsan miri";; C36) VERIF_VARIANTS=gen;; C38) VERIF_VARIANTS=cfgs;; *) VERIF_VARIANTS=;; esac
. "$ROOT/tools/build.sh" || { echo "ERROR: the monitor does not build against /repo"; exit 2; }
mkdir -p "$ROOT/evidence" "$ROOT/replays"
"$CARGO_TARGET_DIR/debug/mon" run "$PROP"
rc=$?
exit $rc
