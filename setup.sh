#!/bin/bash
# Builds the driver once, to fail early if something is missing.
set -e
cd "$(dirname "$0")/harness"
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --quiet
