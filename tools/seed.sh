#!/bin/bash
# seed.sh ID [nocheck]: confirms a planted bug: demo on the clean tree, then with the patch build, tests, demo and its property's check.
set -u
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
bash "$D/demo.sh" >/tmp/demo.clean 2>&1; echo "demo clean: $?"
trap 'git -C /repo checkout -q -- .' EXIT
git apply "$D/patch.diff" || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "build fails"; tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('tests passed',len(o['passed']),'missing',sorted(set(b['stable'])-set(o['passed']))[:6])"
bash "$D/demo.sh" >/tmp/demo.patched 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.patched
[ "${2:-}" = nocheck ] && exit
s=$(date +%s); /verif/check.sh $P >/tmp/check.$P.log 2>&1; echo "check $P: $? $(( $(date +%s)-s ))s: $(grep -c ^VIOLATION /tmp/check.$P.log) $(grep -m1 -A1 ^VIOLATION /tmp/check.$P.log | tr '\n' ' ' | cut -c1-250)"
