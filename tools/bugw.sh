#!/bin/bash
# fresh edited copy of /repo for plant.sh
rm -rf /tmp/bugw && cp -a /repo /tmp/bugw && rm -rf /tmp/bugw/_build && (sed "s#/repo#/tmp/bugw#g" /opt/vp/build.sh > /tmp/bug_build.sh; bash /tmp/bug_build.sh >/tmp/bug_build.log 2>&1; tail -1 /tmp/bug_build.log)
