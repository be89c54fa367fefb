#!/bin/bash
# bugs.sh [ID...]: runs the check of each planted bug's property on a scratch copy with the bug
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  w=/tmp/bugrun-$b
  rm -rf "$w"; cp -a /repo "$w"
  (cd "$w" && git apply "/verif/seeded/$b/patch.diff") || echo "no apply $b"
  s=$(date +%s)
  REPO=$w timeout 900 bash /verif/check.sh "$p" quick > "/tmp/bugrun-$b.log" 2>&1; rc=$?
  echo "$b $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -A0 '^  [a-z]*\.' /tmp/bugrun-$b.log | cut -c1-150)"
  rm -rf "$w"
done
