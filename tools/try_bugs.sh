#!/bin/bash
# Runs each planted bug's check against it in /repo (by hand, while developing): try_bugs.sh NAME...
cd "$(dirname "$0")/.."
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$n/patch.diff" || continue
  s=$(date +%s)
  out=$(timeout 900 bin/check "$p" 2>/dev/null); r=$?
  git -C /repo checkout -- .
  echo "$n $p exit $r after $(($(date +%s) - s)) s: $(echo "$out" | tail -2 | tr '\n' ' ' | cut -c1-260)"
done
