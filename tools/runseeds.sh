#!/bin/bash
# Applies each planted bug to /repo, runs the check of its property, undoes it.
cd "$(dirname "$0")/../seeded" || exit 1
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/$id/patch.diff" || { echo "$id does not apply"; continue; }
  timeout 900 python3 ../check.py $p >/tmp/seedrun.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/seedrun.log) $(grep -m1 validated /tmp/seedrun.log | sed 's/.*validated//; s/models.*; / /')"
done
