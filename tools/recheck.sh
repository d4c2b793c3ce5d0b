#!/bin/bash
# recheck.sh ID...: applies a planted bug in a copy of /repo and runs its property's quick check against it.
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  W=$(mktemp -d /tmp/recheck.XXXXXX)
  cp -a /repo "$W/r"
  git -C "$W/r" apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  VERIF_REPO=$W/r /verif/run.sh check $prop ${TIER:-quick} > "$W/log" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" "$W/log"; then echo "$id: caught ($prop)"; else echo "$id: MISSED rc=$rc"; tail -5 "$W/log"; fi
  rm -rf "$W"
done
