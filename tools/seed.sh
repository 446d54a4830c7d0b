#!/bin/bash
# seed.sh [-t] [-n] NAME [PROPERTY...] : confirms a planted bug and runs the check(s) against it.  -t also runs the test suite; -n no demo
# (by hand only; applies the patch to /repo and undoes it)
T=0; N=0; while [[ $1 == -* ]]; do [ $1 = -t ] && T=1; [ $1 = -n ] && N=1; shift; done
S=/verif/seeded/$1; shift
PROPS=${*:-$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ $N = 0 ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BUILD-FAILED; tail /tmp/seed.build; exit 2; }
timeout 300 bash $S/demo.sh >/tmp/seed.demo 2>&1; echo "demo with patch: $? (want nonzero): $(tail -1 /tmp/seed.demo)"
if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 - <<'P'
import json
a=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b['stable']; s=[x if isinstance(x,str) else x.get('id') for x in s]
print('tests broken:',[x for x in s if x not in a['passed']])
P
fi; fi
for p in $PROPS; do (cd /verif; timeout 900 python3 checks/check.py $p > /tmp/seed.check 2>&1; echo "check $p: exit $?"; grep -m1 -B3 VIOLATION /tmp/seed.check | cut -c1-400; tail -1 /tmp/seed.check | cut -c1-200); done
git -C /repo checkout -q -- .
if [ $N = 0 ]; then bash /opt/vp/build.sh >/tmp/seed.build 2>&1; timeout 300 bash $S/demo.sh >/tmp/seed.demo 2>&1; echo "demo without patch: $? (want 0): $(tail -1 /tmp/seed.demo)"; fi
