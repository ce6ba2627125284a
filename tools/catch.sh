#!/bin/bash
# Development tool: catch.sh [id...]: apply each planted change to /repo, run the check of its property, undo.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
    p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick bash check.sh "$p" quick 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    echo "$id $p rc=$rc $(($(date +%s) - s))s $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-150)"
done
