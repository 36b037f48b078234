#!/bin/bash
# tools/tryseed.sh ID [check...]: in a scratch copy of /repo, with the planted bug: build, tests, demo, checks.  NODEMO=1: checks only.
id=$1; shift
d=/verif/seeded/$id
R=/tmp/phx-try/repo
T=/tmp/phx-try
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -d $R ] || { mkdir -p $T; cp -a /repo $R; for f in build test; do sed "s#cd /repo#cd $R#; s#/repo/target#$R/target#; s#/opt/vp/build.sh#$T/build.sh#" /opt/vp/$f.sh > $T/$f.sh; done; }
cd $R; git checkout -q -- . ; git fetch -q /repo HEAD; git checkout -q --detach FETCH_HEAD
if [ -z "$NODEMO" ]; then
bash $T/build.sh >$T/b.log 2>&1 || { echo "clean build failed"; exit 1; }
bash $d/demo.sh >$T/demo0.log 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; tail -30 $T/demo0.log; }
fi
git apply $d/patch.diff || exit 1
if [ -z "$NODEMO" ]; then
bash $T/build.sh >$T/b.log 2>&1 || { echo "build fails"; tail -30 $T/b.log; git checkout -q -- .; exit 1; }
bash $T/test.sh $T/t.json >$T/t.log 2>&1; python3 -c "
import json; t=json.load(open('$T/t.json')); b=json.load(open('/opt/vp/BASELINE.json')); print('$id tests passed', len(t['passed']), 'failed', t['failed'][:5])"
bash $d/demo.sh >$T/demo1.log 2>&1 && echo "$id demo patched: PASSES (bad)" || { echo "$id demo patched: fails, as it should"; grep -h "panicked\|assert\|left\|right\|error" -A3 $T/demo1.log | head -8; }
fi
cd /verif
for c in ${@:-$prop}; do PHX_REPO=$R VERIF_TIER=quick python3 -m phx.check $c 2>&1 | grep -v "^built" | cut -c1-300 | sed "s/^/$id $c: /"; done
git -C $R checkout -q -- .
