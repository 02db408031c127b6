#!/bin/bash
# apply each planted bug to /repo, run its property's check, undo
for id in "$@"; do d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
 s=$(date +%s); (cd /verif; ./check $p quick >/tmp/trybug.$id.log 2>&1); rc=$?; git -C /repo checkout -- .
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/trybug.$id.log) violations"; done
