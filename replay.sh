#!/bin/bash
# replay.sh <file>: run the input recorded in a replay file again, on model and implementation.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1")
cd "$here" || exit 2
export GC_ROOT="$here"
id=$(grep -o '"property": *"[^"]*"' "$file" | head -1 | sed 's/.*"\(C[0-9]*\)"/\1/')
bin=$(./build.sh "$id") || exit 2
exec "$bin" replay "$file"
