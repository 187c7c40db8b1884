#!/bin/bash
# tools/seeded.sh ID... -- run the check of each planted bug's property on a scratch copy with the bug (development aid)
. /opt/vp/env.sh
cd "$(dirname "$0")/.."
for s in "$@"; do
  d=$(mktemp -d); cp -a /repo $d/repo
  if ! git -C $d/repo apply "$PWD/seeded/$s/patch.diff"; then echo "$s does not apply"; rm -rf "$d"; continue; fi
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  t0=$(date +%s)
  o=$(SYMKJ_REPO=$d/repo SYMKJ_EVIDENCE=$d/ev /opt/venv/bin/python check.py $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(($(date +%s)-t0))s $(echo "$o" | grep -m1 -A1 VIOLATION | tail -1 | cut -c1-110)"
  rm -rf "$d"
done
