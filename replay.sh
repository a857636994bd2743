#!/bin/bash
# replay.sh FILE: runs one saved case against /repo's working tree.
# Exit 0: the case passes; 1: it violates the property; 3: it hangs.
set -u
FILE=$(realpath -- "${1:?replay file}")
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$FILE") || exit 4
. "$ROOT/build.sh"
vh_build "$ID" "$(echo "$ID" | tr 'A-Z' 'a-z')" || { echo "build failed" >&2; exit 4; }
trap 'rm -rf "$VH_TMP"' EXIT
"$VH_TMP/vh" replay "$FILE"
exit $?
