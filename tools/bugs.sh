#!/bin/bash
# bugs.sh [ID...] : the planted bugs against their checks, in a scratch copy (developer tool)
cd /verif; mkdir -p /tmp/bugsw
for b in ${*:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  find /tmp/bugsw -mindepth 1 -delete; cp -a /repo/source /tmp/bugsw/; (cd /tmp/bugsw && patch -s -p1 < /verif/seeded/$b/patch.diff) || { echo "$b does not apply"; continue; }
  HX_REPO=/tmp/bugsw HX_OUT=/tmp/mutout timeout 900 python3 check.py $P > /tmp/bugs.$b.log 2>&1; echo "$b $P rc=$? $(grep -c VIOLATION /tmp/bugs.$b.log)"
done
