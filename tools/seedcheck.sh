#!/bin/bash
# seedcheck.sh <outlog> id...   run each planted change's check against a scratch copy carrying it
out=$1; shift
for id in "$@"; do
  d=$(mktemp -d /tmp/sc.XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply /verif/seeded/$id/patch.diff || echo "$id NOAPPLY" >> "$out"
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick NNV_REPO="$d/repo" NNV_OUT="$d/out" timeout 900 python3-vt check.py $p > "$d/log" 2>&1); rc=$?
  echo "$id $p rc=$rc t=$(( $(date +%s)-s )) $(grep -h VIOLATION "$d/log" | head -2 | tr '\n' ' ' | cut -c1-200)" >> "$out"
  rm -rf "$d"
done
