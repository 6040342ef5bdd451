#!/bin/bash
# tools/plant.sh ID : confirms a planted bug in a scratch copy: applies, builds, tests pass, demo 0 without and nonzero with it; then runs its property's check on it
ID="$1"; S=/verif/seeded/$ID; W=/tmp/plant.$ID.$$
mkdir -p "$W"; cp -a /repo "$W/repo"; cd "$W/repo" || exit 9
[ -f "$S/demo.sh" ] || cp /verif/tools/demo/demo.sh "$S/demo.sh"
run() { timeout 300 bash "$S/demo.sh" >"$W/demo.$1" 2>&1; echo $?; }
a=$(run clean)
git apply "$S/patch.diff" || { echo "$ID: does not apply"; rm -rf "$W"; exit 1; }
b=$(run bug)
(. /opt/vp/env.sh; cd "$W/repo"; cargo test --workspace --all-targets --offline --features parallel; cargo test --doc --offline --features parallel; cargo test --workspace --all-targets --offline) >"$W/test" 2>&1
t=$?
f=$(grep -c "FAILED\|^error" "$W/test"); n=$(grep "^test result" "$W/test" | awk '{s+=$4} END {print s}')
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
v=$(cd /verif; VERIF_REPO="$W/repo" timeout 900 python3 check.py $p 2>&1 | tail -4 | cut -c1-300)
echo "$ID ($p): demo clean=$a bug=$b tests failed=$f passed=$n"; echo "$v"
[ "$a" = 0 ] || tail -5 "$W/demo.clean"; [ "$b" = 0 ] && tail -5 "$W/demo.bug"; [ "$f" = 0 ] || grep "FAILED\|^error" "$W/test" | head
rm -rf "$W"
