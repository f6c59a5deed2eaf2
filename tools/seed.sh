#!/bin/bash
# tools/seed.sh ID [check ...]: try the planted bug /verif/seeded/ID in a scratch copy (tests, demo, checks)
id=$1; shift
d=/verif/seeded/$id
wt=/tmp/seedwt_$id
rm -rf "/tmp/seedwt_$id"; cp -a /repo $wt
if [ -z "$NODEMO" ]; then
( cd $wt && PYTHONPATH=$wt TZ=UTC bash $d/demo.sh >/tmp/seed_$id.clean 2>&1 ); echo "$id demo clean rc=$?"; fi
git -C $wt apply $d/patch.diff || { echo APPLY FAILED; rm -rf "/tmp/seedwt_$id"; exit 1; }
if [ -z "$NODEMO" ]; then
( cd $wt && PYTHONPATH=$wt TZ=UTC bash $d/demo.sh >/tmp/seed_$id.bug 2>&1 ); echo "$id demo bug rc=$?"; fi
if [ -z "$NOTEST" ]; then
( . /opt/vp/env.sh; cd $wt; PYTHONPATH=$wt $PY -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=rocketry/test/session/test_control.py --ignore=rocketry/test/schedule/test_multilaunch.py --ignore=rocketry/test/schedule/test_terminate.py --basetemp=/tmp/seedtmp_$id -o junit_family=xunit2 --junitxml=/tmp/seed_$id.xml rocketry >/tmp/seed_$id.test 2>&1
/usr/bin/python3 /opt/vp/results.py /tmp/seed_$id.json junit:/tmp/seed_$id.xml >/dev/null
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_$id.json'))
print('$id tests missing:', set(b['stable'])-set(o['passed']))" ; rm -rf "/tmp/seedtmp_$id"; tail -1 /tmp/seed_$id.test)
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${@:-$prop}; do
 SYMX_REPO=$wt /verif/run.py $c quick > /tmp/seed_$id.$c.out 2>&1; echo "$id $c check rc=$? $(grep -c VIOLATION /tmp/seed_$id.$c.out)"; python3 /verif/tools/seedrec.py $id $c /tmp/seed_$id.$c.out; grep -m2 counterexample /tmp/seed_$id.$c.out | cut -c1-300
done
rm -rf "/tmp/seedwt_$id"
