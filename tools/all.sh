#!/bin/bash
# Quick checks of all (or the given) properties on /repo as it is.
cd "$(dirname "$0")/.." || exit 1
if [ $# = 0 ]; then set -- C{01..22}; fi
for p; do
  python3 check.py $p >/tmp/all-$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(grep -m1 validated /tmp/all-$p.log | sed 's/.*seed/seed/')"
done
