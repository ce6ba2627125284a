#!/bin/bash
# check.sh <property> [quick|thorough]: build the checker against /repo's working tree and run one check.
# exit 0: held on everything explored; 1: VIOLATION printed; 2: could not be checked
set -u
cd "$(dirname "$0")" || exit 2
export GC_ROOT="$PWD"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$(./build.sh "$id") || exit 2
exec "$bin" check "$id" "$tier"
