#!/bin/bash
# run every seeded bug against the check of its property
cd ${VC:-/verif}
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d $p NOAPPLY"; continue; }
 s=$SECONDS
 timeout 900 bash check.sh $p quick > /tmp/seedout/$d.log 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$d $p rc=$rc $((SECONDS-s))s $(grep -c VIOLATION /tmp/seedout/$d.log)"
done
