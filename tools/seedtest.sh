#!/bin/bash
# tools/seedtest.sh ID [check-dir]: apply a planted bug to /repo, build, run its demo and its check, undo.
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
C=${2:-/verif/checks/$(echo $P | tr A-Z a-z)/check.py}
cd /repo && git diff --quiet || { echo "repo dirty"; exit 9; }
[ -n "$SKIPBASE" ] || { bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh; echo "demo unchanged: $?"; }
git apply $S/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seedbuild.log; exit 9; }
bash $S/demo.sh; echo "demo patched: $?"
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seedtest.json'))
m=[x for x in b if x not in r['passed']]; print('tests missing:', m)
P
fi
(cd /verif && python3 $C 2>&1 | tail -${LINES_:-6}; echo "check exit: ${PIPESTATUS[0]}")
