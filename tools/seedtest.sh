#!/bin/bash
# seedtest.sh ID... : for each planted bug: demo on the unchanged tree, apply, build, stable tests, demo, the property's check, undo
cd /repo || exit 1
git diff --quiet || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  timeout 300 bash $d/demo.sh >/tmp/sd.clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sd.build 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/sd.json 2>&1 | tail -1)
  timeout 300 bash $d/demo.sh >/tmp/sd.bug 2>&1; c=$?
  (cd /verif && python3 check.py $prop > /tmp/sd.check 2>&1); e=$?
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id [$prop] demo clean=$a bug=$c build=$b tests=[$t] check=$e $(grep -m1 '^  ' /tmp/sd.check | cut -c1-150)"
done
