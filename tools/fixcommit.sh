#!/bin/bash
# fixcommit.sh "C09,C01" "short msg" "what failed": runs the stable tests, commits /repo, records the fix.
set -e
. /opt/vp/env.sh
cd /repo
gofmt -l . | grep . && exit 1
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
m=b-set(o['passed'])
sys.exit("tests failing: %s"%m if m else 0)
P
git status --short
git commit -qam "fix: $2"
h=$(git rev-parse --short HEAD)
for p in ${1//,/ }; do echo "fixed: property=$p $h $3" >> /verif/known_findings.txt; done
git log --oneline | head -1
