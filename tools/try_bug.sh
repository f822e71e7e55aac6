#!/bin/bash
# Applies planted bugs to the repository one at a time and runs the check of the property each breaks (or those in CHECKS).
cd "$(dirname "$0")/.." || exit 1
repo=${REPO:-/repo}
[ -z "$(git -C "$repo" status --porcelain)" ] || { echo "$repo is not clean"; exit 1; }
trap 'git -C "$repo" checkout -q -- .' EXIT
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh "$c" quick 2>&1); rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' <<<"$out")"
    [ $rc = 1 ] || tail -3 <<<"$out"
  done
  git -C "$repo" checkout -q -- .
done
