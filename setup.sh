#!/bin/bash
# Warms Go's build cache and shows that every check builds.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/build.sh"
vh_build all all || exit 1
rm -rf "$VH_TMP"
vh_build C19 c19 || exit 1
rm -rf "$VH_TMP"
echo "setup done"
