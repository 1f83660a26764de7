#!/bin/bash
# tools/bug.sh ID [--fresh]: try the planted bug seeded/ID in a scratch copy
# of /repo: tests, demonstration with and without the patch, the check.
# With --new, take the patch from the edited scratch copy /tmp/wt.
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$ID; W=${DST_WT:-/tmp/wt}
[ -d $W ] || cp -a /repo $W
if [ "$2" = --new ]; then
  mkdir -p $D; git -C $W diff > $D/patch.diff
fi
git -C $W checkout -q -- . ; git -C $W clean -qfd -- sfepy
git -C $W pull -q --ff-only /repo HEAD 2>/dev/null
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
(cd $W && bash $D/demo.sh > /tmp/demo0.log 2>&1); R0=$?
git -C $W apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
if grep -q '\.\(c\|h\|pyx\|pxd\)$' <(git -C $W diff --name-only); then
  (cd $W && PATH=/opt/venv/bin:$PATH /opt/venv/bin/python setup.py build_ext --inplace > /tmp/bug_build.log 2>&1)
fi
(cd $W && bash $D/demo.sh > /tmp/demo1.log 2>&1); R1=$?
T=skipped
if [ "$3" != --notest ]; then
T0=$(mktemp -d); mkdir $T0/o; cp /tmp/bug_test.log /tmp/bug_test.old; (cd $T0 && HOME=$T0 PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 -W ignore --basetemp=$T0/b --output-dir=$T0/o $W/sfepy/tests > /tmp/bug_test.log 2>&1); T=$(tail -1 /tmp/bug_test.log); rm -rf $T0
fi
S=$(date +%s)
DST_REPO=$W $V/check.sh $P quick > /tmp/bug_check.log 2>&1; RC=$?
E=$(date +%s)
git -C $W checkout -q -- .
echo "$ID: demo $R0 -> $R1; tests: $T; check $P exit $RC ($((E-S)) s): $(grep -m1 VIOLATION /tmp/bug_check.log)"
