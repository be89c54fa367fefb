#!/bin/bash
# ref.sh REPO [PROP...]: runs quick checks against another tree (a refactored copy); prints what is not quiet
r=$1; shift
[ $# -gt 0 ] || set -- $(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']: print(c['property'])" 2>/dev/null)
for p in "$@"; do
  s=$(date +%s)
  REPO=$r timeout 900 nice -n 10 bash /verif/check.sh "$p" quick > "/tmp/ref-$p.log" 2>&1; rc=$?
  echo "$p rc=$rc $(($(date +%s)-s))s inc=$(grep -c incomplete /tmp/ref-$p.log) $(grep -m2 -iE 'VIOLATION|abort|^  [a-z]*\.' /tmp/ref-$p.log | tr '\n' ' ' | cut -c1-200)"
done
