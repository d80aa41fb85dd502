#!/bin/bash
# trybugs.sh [ID...]: runs the claimed check of each planted bug against a scratch copy that has it (development tool).
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  tmp=$(mktemp -d); cp -a /repo "$tmp/repo"
  if ! git -C "$tmp/repo" apply "/verif/seeded/$id/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$tmp"; continue; fi
  mkdir -p "$tmp/v"; cp -r /verif/harness "$tmp/v/harness"; cp /verif/known-findings.txt "$tmp/v/" 2>/dev/null
  t0=$(date +%s)
  out=$(timeout 900 "${ENG:-/verif/bin/engine}" -prop "$prop" -repo "$tmp/repo" -verif "${VV:-$tmp/v}" 2>&1); rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -A1 -m1 VIOLATION | tr '\n' ' ' | cut -c1-200)"
  [ -n "$V" ] && echo "$out"
  rm -rf "$tmp"
done
