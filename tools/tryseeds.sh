#!/bin/bash
# tryseeds.sh ID... : run the check of each planted bug's property against a scratch copy of /repo with the bug applied
for id in "$@"; do
  d=$(mktemp -d /tmp/try-XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "$id does not apply"
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VERIF_REPO="$d/repo" /opt/venv/bin/python -B /verif/checks/check.py "$prop" > "$d/out" 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -m1 -o 'clauses [^;]*' "$d/out") $(grep -c '^VIOLATION' "$d/out")"
  [ $rc = 1 ] || tail -c 600 "$d/out"
  rm -rf "$d"
done
