#!/bin/bash
# Apply each planted bug to /repo, run the quick check of its property, undo.
# usage: tools/seeded.sh [ID...]   (development only; no check reads seeded/)
cd /verif; . tools/env.sh
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for b in $ids; do
  [ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "dirty /repo"; exit 2; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  cmd=$(python3 -c "import json;print([c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in json.load(open('MANIFEST.json'))['checks'] if c.get('property',c.get('id'))=='$p'][0])")
  s=$(date +%s)
  timeout 900 bash -c "$cmd" > /tmp/seeded.$b.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seeded.$b.log; then r=caught; else r="MISSED(rc $rc)"; fi
  echo "$b $p $r $(( $(date +%s) - s ))s $(grep -m1 ^VIOLATION /tmp/seeded.$b.log | cut -c1-150)"
done
