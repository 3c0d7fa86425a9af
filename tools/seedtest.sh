#!/bin/bash
# seedtest.sh ID [nocheck|checkonly]: confirm a planted bug in a scratch copy and run its property's check on it
set -u
id=$1; mode=${2:-all}
d=/verif/seeded/$id
. /opt/vp/env.sh
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
cd "$w/repo" || exit 9
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
res="$id($prop):"
if [ "$mode" != checkonly ]; then
  bash "$d/demo.sh" >"$w/clean.log" 2>&1 && res="$res clean=ok" || { res="$res clean=FAIL"; tail -20 "$w/clean.log"; }
fi
git apply "$d/patch.diff" || { echo "$res patch does not apply"; exit 1; }
go build ./... || { echo "$res does not build"; exit 1; }
if [ "$mode" != checkonly ]; then
  bash "$d/demo.sh" >"$w/bug.log" 2>&1 && res="$res demo=NOTDETECTED" || res="$res demo=fails"
  go test -timeout 100s -count=1 -vet=off -p 1 ./... >"$w/test.log" 2>&1 && res="$res tests=pass" || { res="$res tests=FAIL"; grep -E "^FAIL|^---|\.\.\. (obtained|expected)|^OOPS" "$w/test.log" | head; }
fi
if [ "$mode" != nocheck ]; then
  (cd /verif && VERIF_REPO="$w/repo" timeout 900 python3 check.py "$prop" quick) >"$w/check.log" 2>&1
  rc=$?
  res="$res check=$rc"
  [ $rc = 1 ] || tail -5 "$w/check.log"
  grep counterexample "$w/check.log" | head -3
fi
echo "$res"
