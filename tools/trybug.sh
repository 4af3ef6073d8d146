#!/bin/bash
# trybug.sh ID [PROPERTY]: apply seeded/ID to /repo, run its check, undo
p=/verif/seeded/$1
prop=${2:-$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")}
git -C /repo apply "$p/patch.diff" || exit 3
cd /verif && timeout 900 ./check "$prop" > /tmp/try.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $prop rc=$rc $(grep -c VIOLATION /tmp/try.log) $(grep VIOLATION /tmp/try.log | head -1)"
