#!/bin/bash
# try.sh [ID...]: runs each planted bug's check in a scratch copy of /repo
cd /verif || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/try.XXXXXX)
  git clone -q /repo "$d/repo" && git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(REPO=$d/repo ./check "$prop" quick 2>&1); rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION <<<"$out")"
  [ $rc = 1 ] || echo "$out" | tail -8
  rm -rf "$d"
done
