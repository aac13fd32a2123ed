#!/bin/bash
# bash tools/replay.sh FILE   runs one saved failing case again, without the search
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" || exit 2
build_harness >&2 && build_cli >&2 || exit 2
exec target/release/elinor-verif replay "$1"
