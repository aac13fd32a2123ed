#!/bin/bash
# bash tools/check.sh ID      one property, tier and seed from VERIF_TIER and VERIF_SEED
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" || exit 2
build_harness >&2 || { echo "ERROR: the harness does not build against /repo" >&2; exit 2; }
case $1 in
  C23|C24|C25|C26|C27|C28|C31) build_cli >&2 || { echo "ERROR: the CLI does not build" >&2; exit 2; } ;;
esac
exec target/release/elinor-verif check "$1"
