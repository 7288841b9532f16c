#!/bin/sh
root=$(cd "$(dirname "$0")/.." && pwd)
sh "$root/tools/build.sh"
