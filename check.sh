#!/bin/bash
# check.sh ID [quick|thorough]: builds the check of one property from /repo's
# working tree and runs it. Exit 0: held; 1: VIOLATION; other: the check failed.
set -u
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/build.sh"
vh_build "$ID" "$(echo "$ID" | tr 'A-Z' 'a-z')" || { echo "check error: build failed" >&2; exit 2; }
trap 'rm -rf "$VH_TMP"' EXIT
trap 'exit 2' INT TERM
"$VH_TMP/vh" check "$ID" "$ROOT" "$TIER"
exit $?
