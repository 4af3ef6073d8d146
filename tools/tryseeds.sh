#!/bin/bash
# tryseeds.sh ID...: for each planted bug: scratch copy of the tree ($VERIF_REPO or /repo), apply, run the check of its property on the copy
base=${VERIF_REPO:-/repo}
cd "$(dirname "$0")/.."
for id in "$@"; do
 p=seeded/$id
 prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
 copy=$(mktemp -d /tmp/tryXXXXXX)
 cp -a "$base/." "$copy/"
 git -C "$copy" apply "$PWD/$p/patch.diff" || echo "$id: patch does not apply"
 s=$(date +%s)
 VERIF_FAST=1 VERIF_EVIDENCE=/tmp/tryev VERIF_REPO=$copy timeout 900 ./check "$prop" > /tmp/try.$id.log 2>&1; rc=$?
 echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -o 'harness.*\|VIOLATION.*' /tmp/try.$id.log | cut -c1-110)"
 rm -rf "$copy"
done
