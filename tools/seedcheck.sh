#!/bin/bash
# seedcheck.sh ID [check...]: applies a planted bug to /repo, runs its property's check (or the given ones), undoes it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
[ $# -eq 0 ] && set -- "$prop"
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for c in "$@"; do
    out=$(./run.sh check "$c" quick 2>&1); rc=$?
    echo "$id $c exit=$rc $(echo "$out" | grep -m1 -A2 VIOLATION | tr '\n' ' ' | cut -c1-260)"
    [ $rc -gt 1 ] && echo "$out" | tail -3
done
git -C /repo checkout -- .
