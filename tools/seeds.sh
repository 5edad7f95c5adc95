#!/bin/bash
# apply each planted bug (or those named) to a scratch copy and run its check
set -u
V=/verif; W=$(mktemp -d /tmp/seedrun.XXXX); trap 'rm -rf "$W"' EXIT
cd $V
for d in ${@:-$(ls seeded)}; do
  rm -rf "$W/repo"; cp -a /repo "$W/repo"
  git -C "$W/repo" apply $V/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
  out=$($V/bin/ana -repo "$W/repo" -out "$W/ev" -prop $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | head -1 | cut -c1-160)"
done
