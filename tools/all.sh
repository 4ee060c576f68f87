#!/bin/bash
# run every claimed check on /repo's current tree, one after another; prints those that are not quiet
cd "$(dirname "$0")/.." || exit 2
bad=0
for id in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  o=$(python3 check.py $id 2>&1); rc=$?
  echo "$o" | tail -1 | cut -c1-160
  if [ $rc != 0 ] || echo "$o" | grep -q '^VIOLATION'; then bad=1; echo "NOT QUIET: $id"; echo "$o"; fi
done
exit $bad
