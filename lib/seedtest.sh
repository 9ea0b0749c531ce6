#!/bin/bash
# seedtest.sh ID [notest]: tries a planted bug in a copy of /repo (own mount namespace): build, tests, demo, check.
ID=$1; NT=$2
W=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/. $W/verif/ 2>/dev/null; [ -n "$KEEPBUILD" ] || rm -rf $W/verif/build
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cp -a /verif/seeded/$ID $W/seed
unshare -mn bash -c "
ip link set lo up
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo; git apply $W/seed/patch.diff || { echo PATCH-FAILS; exit; }
if [ -z '$NT' ]; then flock /tmp/testsh.lock bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1; else bash /opt/vp/build.sh > $W/t.log 2>&1 || tail -5 $W/t.log; fi
if [ -f $W/t.json ]; then python3 -c \"
import json
t=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(t['passed'])); print('$ID tests:', 'pass' if not m else 'FAIL %s' % m[:5])\"; fi
timeout 300 bash $W/seed/demo.sh > $W/d.log 2>&1; echo \"$ID demo: rc=\$?\"
cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $P quick > $W/c.log 2>&1; echo \"$ID check $P: rc=\$? \$(grep -c '^VIOLATION property=$P' $W/c.log)\"; grep -m2 -B1 '^VIOLATION' $W/c.log | cut -c1-300; tail -1 $W/c.log | cut -c1-200
"
rm -rf "$W"
