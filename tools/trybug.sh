#!/bin/bash
# trybug.sh ID [--jest] : try one planted bug in the scratch copy /tmp/pl/repo (demo both ways, its property's check, optionally tests)
id=$1; S=/verif/seeded/$id; R=/tmp/pl/repo; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -d $R ] || { mkdir -p /tmp/pl; cp -a /repo $R; }
cd $R && git checkout -q -- . && git fetch -q ${VG_SRC:-/repo} HEAD && git reset -q --hard FETCH_HEAD
T=$(mktemp -d); cp $S/* $T/; rm -f $T/patch.diff $T/meta.json
bash $T/demo.sh >/tmp/pl/demo0.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
bash $T/demo.sh >/tmp/pl/demo1.log 2>&1; b=$?
rm -rf "$T"
c=skip
if [ "$2" = --jest ]; then
  . /opt/vp/setup/env.sh
  for p in $(git diff --name-only | cut -d/ -f2 | sort -u); do (cd packages/$p && npx tsc --noEmit -p . | head -3; timeout 600 ./node_modules/.bin/jest --ci 2>&1 | grep -E "^(Tests:|FAIL)"); done
fi
cd /verif; VG_REPO=$R ./check.sh $P > /tmp/pl/check.log 2>&1; d=$?
cd $R && git checkout -q -- .
echo "$id ($P): demo clean=$a patched=$b check=$d $(grep -m1 -B1 '^VIOLATION' /tmp/pl/check.log | head -1 | cut -c1-200)"
