#!/bin/bash
# catch.sh ID...: run the property's quick check against each planted change, in a private mount over /repo
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 w=/tmp/ct_$id; rm -rf "$w"; mkdir "$w"; cp -a /repo/include /repo/src /repo/cpp /repo/.git "$w"
 ( cd "$w" && git apply /verif/seeded/$id/patch.diff ) || { echo "$id: patch fails"; continue; }
 s=$(date +%s); unshare -Urm sh -c "mount --bind $w /repo && cd /verif && python3 check.py $p quick" > /tmp/ct_$id.log 2>&1; rc=$?
 echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -c VIOLATION /tmp/ct_$id.log) $(grep -h 'assert:\|memory\|  [a-z].*: .* at ' /tmp/ct_$id.log | head -1 | cut -c1-150)"
 rm -rf "$w"
done
