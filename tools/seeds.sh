#!/bin/bash
# dev tool: seeds.sh [ID...]: run each planted change's check on a scratch copy with the change applied
HERE=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seedrun
rm -rf "$S"; mkdir -p "$S"; (cd /repo && git archive HEAD) | tar x -C "$S"
cd "$S" && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x
[ $# -gt 0 ] || set -- $(ls "$HERE/seeded")
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$HERE/seeded/$id/meta.json'))['property'])")
  git apply "$HERE/seeded/$id/patch.diff" || { echo "$id APPLY FAILS"; continue; }
  out=$(cd "$HERE" && VERIF_REPO=$S VERIF_CACHE=/tmp/seedrun.cache timeout 900 python3 check.py $p 2>&1); rc=$?
  git checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-160)"
done
