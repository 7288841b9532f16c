#!/bin/sh
# check.sh PROPERTY quick|thorough
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root" || exit 2
sh tools/build.sh || exit 2
IOSIM_DIR="$root" exec sim/target/release/iosim check "$1" "${2:-${VERIF_TIER:-quick}}"
