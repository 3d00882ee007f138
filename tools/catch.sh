#!/bin/bash
# catch.sh ID...: run the quick check of a planted bug's property on a scratch
# copy of /repo with the bug applied (development aid)
for ID in "$@"; do
D=/verif/seeded/$ID; W=$(mktemp -d /tmp/catch.XXXX)
git clone -q /repo "$W/repo" && git -C "$W/repo" apply "$D/patch.diff" || { echo "$ID: apply failed"; continue; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
s=$(date +%s)
VP_REPO=$W/repo VP_EVIDENCE=$W/ev timeout 900 python3 /verif/vp.py check "$P" >"$W/log" 2>&1; rc=$?
echo "$ID $P rc=$rc $(($(date +%s)-s))s $(grep -c VIOLATION "$W/log") $(grep -A1 '^VIOLATION' "$W/log" | tail -1) $(grep -c no-failing "$W/log")"
[ $rc = 1 ] || grep -E 'TOOL-ERROR|#' "$W/log" | head -20
rm -rf "$W"
done
