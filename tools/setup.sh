#!/bin/bash
# Builds the harness and the CLI binaries once, offline.
. "$(dirname "$0")/env.sh"
build_harness && build_cli
