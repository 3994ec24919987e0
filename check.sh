#!/bin/bash
# Build the harness against /repo's working tree and run one property check.
# usage: check.sh <property> [quick|thorough]
set -u
here=$(cd "$(dirname "$0")" && pwd)
property=$1
. "$here/build.sh" || exit 2
export VERIF_ROOT="$here"
exec "$CARGO_TARGET_DIR/release/harness" check "$1" "${2:-quick}"
