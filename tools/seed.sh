#!/bin/bash
# tools/seed.sh ID [check-property...]: confirm a planted bug in a scratch copy of /repo and run the checks against that copy
id=$1; shift
d=/verif/seeded/$id
c=/tmp/seedcopy_$id
rm -rf "/tmp/seedcopy_$id"; cp -a /repo "$c"
pyrun() { (cd "$c" && PYTHONPATH=$c/src timeout 300 bash "$d/demo.sh" >/tmp/seed_$id.demo 2>&1; echo $?); }
echo "demo unchanged: $(pyrun)"
git -C "$c" apply "$d/patch.diff" || { echo "NO APPLY"; rm -rf "/tmp/seedcopy_$id"; exit 2; }
echo "demo patched:   $(pyrun)"; tail -3 /tmp/seed_$id.demo
if [ -z "$NOTEST" ]; then
  sed "s#/repo#$c#g; s#unset PYTHONPATH#export PYTHONPATH=$c/src#; s#REPORTS=.*#REPORTS=/tmp/seed_$id.rep#" /opt/vp/test.sh > /tmp/seed_$id.test.sh
  bash /tmp/seed_$id.test.sh /tmp/seed_$id.json >/tmp/seed_$id.testlog 2>&1
  python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed_$id.json'))
print('stable tests broken:', sorted(b-set(o['passed']))[:5])
P
fi
for p in "$@"; do (cd /verif && VP_REPO=$c timeout 900 python3 harness/check.py $p 2>&1 | tail -6); done
rm -rf "/tmp/seedcopy_$id" /tmp/seed_"$id".*
