#!/bin/bash
# trybug.sh <seeded id> : confirm a planted bug in a scratch copy of /repo and
# run the property's check against it in /repo.
set -u
ID=$1; D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
echo "== $ID ($PROP)"
S=$(mktemp -d /tmp/seed.XXXXXX)
cp -a "$D" "$S/demo"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
cd /repo || exit 2
test -z "$(git status --porcelain)" || { echo "repo dirty"; exit 2; }
( bash "$S/demo/demo.sh" >"$S/o1" 2>&1 ); a=$?
git apply "$D/patch.diff" || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >"$S/b" 2>&1; b=$?
bash /opt/vp/test.sh "$S/t.json" >/dev/null 2>&1
f=$(python3 -c "import json;o=json.load(open('$S/t.json'));print(len(o['passed']),len(o['failed']))")
( bash "$S/demo/demo.sh" >"$S/o2" 2>&1 ); c=$?
cd /verif && python3 run.py check "$PROP" quick >"$S/o3" 2>&1; k=$?
git -C /repo checkout -- .
echo "demo clean=$a build=$b tests=$f demo patched=$c check exit=$k"
tail -3 "$S/o1"; tail -3 "$S/o2"; grep -A1 "violation class\|VIOLATION\|ERROR" "$S/o3" | head -5
rm -rf "$S"
