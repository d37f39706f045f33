#!/bin/bash
# check.sh ID [sim options]: build against /repo's working tree and run the check of property ID.
HERE="$(cd "$(dirname "$0")" && pwd)"
bash "$HERE/build.sh" || exit 2
export VERIF_DIR="$HERE"
exec "$HERE/build/target/debug/sim" check "$@"
