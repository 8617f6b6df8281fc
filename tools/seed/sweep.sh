#!/bin/bash
# sweep.sh [ID...]: applies each planted bug to a scratch copy and runs its property's check on it.
# (vcheck does the same on /repo itself; this one leaves /repo alone.)
v=$(cd "$(dirname "$0")/../.." && pwd)
w=/tmp/sweepw
[ -d $w ] && rm -rf /tmp/sweepw
cp -a /repo $w
export PBT_REPO=$w PBT_BUILD=/tmp/sweepb
for d in "$v"/seeded/${1:-*}; do
    id=$(basename "$d")
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    git -C $w checkout -q -- . && git -C $w apply "$d/patch.diff" || { echo "$id: patch"; continue; }
    out=$(cd "$v" && ./check.sh ${ONLY:-$p} 2>&1); rc=$?
    echo "$id: exit $rc; $(echo "$out" | grep -v '^KNOWN\|^VIOL' | tail -2 | head -1 | cut -c1-200)"
    [ -n "$VERBOSE" ] && echo "$out"
done
rm -rf /tmp/sweepw
