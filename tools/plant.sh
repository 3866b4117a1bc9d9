#!/bin/bash
# plant.sh ID : with /tmp/bugw holding an edited copy of /repo and /verif/seeded/ID/{demo.sh,meta.json,...}
# present, confirms that the change builds, passes the stable tests and is shown by the demonstration,
# and writes patch.diff.  (Developer tool; no check runs it.)
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/bugw
[ -f $D/demo.sh ] || { echo "no demo"; exit 1; }
sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/bug_build.sh; sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/bug_build.sh#" /opt/vp/test.sh > /tmp/bug_test.sh
git -C $W diff -- source > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
bash /tmp/bug_build.sh > /tmp/bug_build.log 2>&1 || { tail -20 /tmp/bug_build.log; echo BUILD-FAILED; exit 1; }
(cd $W && bash $D/demo.sh > /tmp/bug_demo.log 2>&1); r1=$?
bash /tmp/bug_test.sh /tmp/bug_test.json 2>&1 | tail -1
(cd /repo && bash $D/demo.sh > /tmp/bug_demo0.log 2>&1); r0=$?
echo "demo: unchanged rc=$r0, patched rc=$r1"; tail -3 /tmp/bug_demo.log
git -C /repo apply --check $D/patch.diff && echo applies
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
HX_REPO=$W HX_OUT=/tmp/mutout python3 /verif/check.py $P; echo "check $P rc=$?"
