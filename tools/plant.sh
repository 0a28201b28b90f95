#!/bin/bash
# plant.sh ID PROPERTY  -- verify the planted bug in /verif/seeded/ID:
# applies to a scratch copy, tests pass, demo fails with it and passes without;
# then runs the property's check against the scratch copy.
set -u
ID=$1; D=/verif/seeded/$ID
PROP=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
cd "$W/repo"
bash "$W/demo/demo.sh" >"$W/o1" 2>&1; a=$?
git apply "$D/patch.diff" || echo "PATCH DOES NOT APPLY"
# removed lines must be from the base commit
own=0
for f in $(git diff --name-only); do
  for r in $(git diff -U0 "$f" | sed -n 's/^@@ -\([0-9]*\),\{0,1\}\([0-9]*\) .*/\1:\2/p'); do
    s=${r%%:*}; n=${r##*:}; [ -z "$n" ] && n=1; [ "$n" = 0 ] && continue
    own=$((own + $(git blame -s -L "$s,+$n" HEAD -- "$f" | grep -vc '^^50eaafb')))
  done
done
bash "$W/demo/demo.sh" >"$W/o2" 2>&1; b=$?
LC_ALL=C.UTF-8 PYTHONHASHSEED=0 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --continue-on-collection-errors --doctest-modules --doctest-glob='*.md' --ignore=xigt/exporters/itsdb.py --ignore=xigt/importers/odin.py --ignore=xigt/importers/toolbox.py tests xigt >"$W/o3" 2>&1; t=$(tail -1 "$W/o3")
echo "$ID: demo clean=$a patched=$b own-lines=$own tests: $t"
[ $a = 0 ] || cat "$W/o1"
if [ -n "${NOCHECK:-}" ]; then :; else
cd /verif; XIGT_DST_REPO=$W/repo XIGT_DST_NOMIN=1 timeout 880 /opt/venv/bin/python -B check.py "$PROP" --tier quick --no-evidence 2>&1 | grep -v "^also" | cut -c1-300 | tail -4
fi
rm -rf "$W"
