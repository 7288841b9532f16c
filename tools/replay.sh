#!/bin/sh
# replay.sh FILE: repeats one recorded run; exit 1 if the property is violated
f=$(realpath "$1") || exit 2
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root" || exit 2
sh tools/build.sh || exit 2
IOSIM_DIR="$root" exec sim/target/release/iosim replay "$f"
