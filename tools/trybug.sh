#!/bin/bash
# trybug.sh ID: confirm a planted bug in a scratch copy (development aid):
# applies, builds, stable tests pass, demo passes without / fails with it
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/bug.$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W"/demo/*.diff
cd "$W/repo" || exit 2
# a private mount point is not available: build in place of a copy
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > "$W/build.sh"
sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/test.sh > "$W/test.sh"
rm -rf _build
bash "$W/build.sh" >"$W/b.log" 2>&1 || { echo "$ID: base build failed"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d0.log" 2>&1; d0=$?
git apply "$D/patch.diff" || { echo "$ID: does not apply"; exit 1; }
bash "$W/build.sh" >"$W/b.log" 2>&1 || { echo "$ID: build failed"; tail -5 "$W/b.log"; exit 1; }
bash "$W/test.sh" "$W/o.json" >"$W/t.log" 2>&1
t=$(python3 - "$W/o.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('passed') or b.get('stable') or b.get('tests')
print('OK' if set(s)<=set(o['passed']) else 'LOST '+str(sorted(set(s)-set(o['passed']))))
P
)
timeout 300 bash "$W/demo/demo.sh" >"$W/d1.log" 2>&1; d1=$?
echo "$ID: demo base=$d0 patched=$d1 tests=$t"
[ $d0 != 0 ] && tail -5 "$W/d0.log"
tail -3 "$W/d1.log"
cd /; rm -rf "$W"
