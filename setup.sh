#!/bin/bash
# Builds every checker once, so that the checks only rebuild what /repo's changes touch.
set -e
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
. "$VERIF_DIR/env.sh"
for crate in core typed serde structs enums both own; do
    (cd "$VERIF_DIR/mc/$crate" && cargo build --offline)
done
