#!/bin/bash
# tryseed.sh ID [PROP] : the demonstration and the quick check with the change applied to /repo
set -u
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo && git status --short | grep -q . && { echo "/repo is not clean"; exit 9; }
bash $d/demo.sh > /tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 9
bash $d/demo.sh > /tmp/demo1.log 2>&1; r1=$?
if [ "${SUITE:-0}" = 1 ]; then
  bash /opt/vp/build.sh > /tmp/build.log 2>&1 || echo "BUILD FAILS"
  bash /opt/vp/test.sh /tmp/suite.json > /dev/null 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/suite.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k] if isinstance(x[k],list) else [t for t,s in x[k].items() if s in ('passed','pass',True)])
print('suite: missing', sorted(names(b)-names(r))[:5])
"
fi
for q in $p; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash check.sh $q quick > /tmp/check1.$q.log 2>&1; echo "check $q rc=$?"; grep -m1 VIOLATION /tmp/check1.$q.log; tail -1 /tmp/check1.$q.log); done
git checkout -- .
echo "$1: demo clean rc=$r0, patched rc=$r1"
tail -2 /tmp/demo1.log
