#!/bin/bash
# run_seeded.sh [ID...]: apply each planted bug to /repo, run checks against it, undo it.
# CHECKS="P01 P02" overrides the checks run (default: the bug's own property; "all" runs every one).
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
trap 'git -C /repo checkout -q -- .' EXIT
for b in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  checks=${CHECKS:-$p}
  [ "$checks" = all ] && checks=$(python3 -c "import json;print(*[c[\"property\"] for c in json.load(open(\"MANIFEST.json\"))[\"checks\"]])")
  git -C /repo checkout -q -- . && git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: patch does not apply"; continue; }
  for c in $checks; do
    s=$(date +%s); out=$(python3 check.py check $c quick 2>&1); rc=$?; e=$(date +%s)
    echo "$b $c rc=$rc $((e-s))s $(echo "$out" | grep -E '^VIOLATION|^ERROR' | head -1)"
    [ -n "$V" ] && echo "$out" | tail -20
  done
  git -C /repo checkout -q -- .
done
