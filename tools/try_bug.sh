#!/bin/bash
# tools/try_bug.sh ID [PROPERTY...]: applies seeded/ID in a scratch copy, builds, tests, runs the demonstration and the checks
set -u
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/bug.$ID; B=$V/seeded/$ID; [ -d "$B" ] || B=$V/bugs_rl/$ID
rm -rf "$S"; cp -a /repo "$S"; mkdir -p "$S.vp"
for f in build.sh test.sh; do sed "s,/repo,$S,g; s,/opt/vp/build.sh,$S.vp/build.sh,g" /opt/vp/$f > "$S.vp/$f"; done
D=$S.demo; rm -rf "$D"; cp -r "$B" "$D"; rm -f "$D"/*.diff "$D"/meta.json
bash "$S.vp/build.sh" > "$S.log" 2>&1 || { echo "clean build failed"; tail -5 "$S.log"; }
(cd "$S" && timeout 300 bash "$D/demo.sh" > "$S.demo.log" 2>&1); echo "demo on clean tree: $?"
git -C "$S" apply "$B/patch.diff" || exit 2
bash "$S.vp/build.sh" > "$S.log" 2>&1 || { echo "build failed"; tail -5 "$S.log"; exit 2; }
bash "$S.vp/test.sh" "$S.json" 2>&1 | tail -1
(cd "$S" && timeout 300 bash "$D/demo.sh" > "$S.demo.log" 2>&1); echo "demo with the bug: $?"; head -3 "$S.demo.log"
P=${*:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$B/meta.json")}
for p in $P; do (cd "$V" && VERIF_REPO=$S timeout 900 python3 check.py $p quick 2>&1 | grep -E 'VIOLATION|quick:' | (head -1; tail -1)); done
git -C "$V" checkout -q -- evidence 2>/dev/null
rm -rf "$S" "$S.vp" "$D" "$S.log" "$S.json" "$S.demo.log"
