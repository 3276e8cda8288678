#!/bin/bash
# trybug.sh ID [CHECK]: applies a planted bug to /repo, runs the check of its property (or the given ones), undoes it
cd /verif
ID=$1; shift
P="${*:-$(python3 -c "import json;print(json.load(open('seeded/$ID/meta.json'))['property'])")}"
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  S=$(date +%s); ./run $p > /tmp/try-$ID-$p.log 2>&1; rc=$?
  echo "$ID $p rc=$rc $(( $(date +%s) - S ))s $(grep -m1 -E 'VIOLATION|INCONCL|BUILD-ERR' /tmp/try-$ID-$p.log | cut -c1-90) | $(grep -v VIOLATION /tmp/try-$ID-$p.log | tail -1 | cut -c1-150)"
done
