#!/bin/bash
# trybug.sh ID [check|nocheck] [tier]: tries a planted bug in a scratch copy of /repo
# (/tmp/s/repo): it must apply, build and pass the quick tests, its
# demonstration must tell the trees apart; then runs the property's check.
id=$1; d=/verif/seeded/$id; R=/tmp/s/repo
[ -d $R ] || { mkdir -p /tmp/s; cp -a /repo $R; }
cd $R && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
B="ninja -C _build"
$B >/dev/null || { echo "clean build failed"; exit 1; }
rm -rf /tmp/s/demo; cp -r $d /tmp/s/demo
timeout 300 bash /tmp/s/demo/demo.sh >/tmp/s/demo0.log 2>&1; echo "demo on clean tree: $?"
git apply $d/patch.diff || { echo "doesn't apply"; exit 1; }
$B >/tmp/s/build.log 2>&1 || { echo "build failed"; tail -20 /tmp/s/build.log; git checkout -q -- .; exit 1; }
fails=0
for t in _build/test/ut_* ; do MALLOC_PERTURB_=42 timeout 100 $t >/tmp/s/test.log 2>&1 || { fails=1; echo "TEST FAILED $t"; grep "FAILED  \]" /tmp/s/test.log | head -5; }; done
echo "tests failed: $fails"
timeout 300 bash /tmp/s/demo/demo.sh >/tmp/s/demo1.log 2>&1; echo "demo with the bug: $?"
if [ "${2:-check}" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  VERIF_REPO=$R /verif/check $p ${3:-quick} | tail -3 | cut -c1-400
fi
git checkout -q -- .
