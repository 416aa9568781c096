#!/bin/bash
# try.sh [-a] [NAME...]: apply each planted change to /repo, run its property's check (-a: all of them), undo it.
here="$(cd "$(dirname "$0")/.." && pwd)"
all=; [ "$1" = -a ] && { all=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for n in ${@:-$(ls "$here/seeded")}; do
  d="$here/seeded/$n"
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$n: does not apply"; continue; }
  out=
  for id in $([ -n "$all" ] && seq -f 'C%02g' 1 "${NPROPS:-25}" || echo "$p"); do
    t0=$(date +%s)
    VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=1 timeout 900 "$here/check.sh" "$id" >/tmp/try.log 2>&1; rc=$?
    t=$(($(date +%s) - t0))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$id" /tmp/try.log; then out="$out $id(${t}s)"; [ -z "$all" ] && grep -m1 -i '^  \|what\|found' /tmp/try.log | head -1
    elif [ $rc != 0 ]; then out="$out $id:rc=$rc"; fi
  done
  git -C /repo checkout -q -- .
  echo "$n [$p]:${out:- MISSED}"
done
