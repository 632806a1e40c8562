#!/bin/bash
# Applies each planted bug to /repo in turn, runs the check of its property, undoes it.
# usage: tools/seeded.sh [ID-PREFIX]...   (never run by a check)
cd "$(dirname "$0")/.."
for d in seeded/*/; do
  id=$(basename "$d")
  if [ $# -gt 0 ]; then ok=; for p in "$@"; do case $id in $p*) ok=1;; esac; done; [ -n "$ok" ] || continue; fi
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/${d}patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$prop" --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(echo "$out" | grep -a VIOLATION | head -1)"
done
