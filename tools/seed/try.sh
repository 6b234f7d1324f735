#!/bin/bash
# try.sh ID: demo on clean, with patch; tests with patch
S=/verif/seeded/$1
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo dirty; exit 1; }
bash $S/demo.sh > /tmp/demo/$1.clean.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$1 patch does not apply"; exit 1; }
bash $S/demo.sh > /tmp/demo/$1.patched.log 2>&1; b=$?
bash /opt/vp/build.sh > /tmp/demo/$1.build.log 2>&1; d=$?
bash /opt/vp/test.sh /tmp/out.json > /dev/null 2>&1
t=$(python3 /tmp/cmp.py)
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; python3 engine/check.py $P > /tmp/demo/$1.check.log 2>&1; k=$?
git -C /repo checkout -q -- .
echo "$1: clean=$a patched=$b build=$d tests=[$t] check $P=$k: $(grep -m1 VIOLATION /tmp/demo/$1.check.log)"
