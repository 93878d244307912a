#!/bin/bash
# plant.sh ID [check ids...]: confirms one planted bug and runs checks against it. /repo must be clean.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
[ -n "$NODEMO" ] || { bash /opt/vp/build.sh >/tmp/plant.build 2>&1; bash $d/demo.sh >/tmp/plant.clean 2>&1; echo "demo clean: $? (want 0)"; }
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/plant.build; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json 2>&1 | tail -1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
k=[x for x in b if isinstance(b[x],list)]
base=set(b['stable'])
miss=base-set(r['passed'])
print("stable tests missing:", len(miss), sorted(miss)[:3])
P
bash $d/demo.sh >/tmp/plant.bug 2>&1; echo "demo patched: $? (want nonzero)"; tail -2 /tmp/plant.bug
fi
cd /verif
for c in "$@"; do VERIF_SEED=${VERIF_SEED:-1} ./check.py $c quick 2>&1 | tail -2 | cut -c1-300; done
