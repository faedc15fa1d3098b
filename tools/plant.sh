#!/bin/bash
# plant.sh ID [nocheck]: try a planted bug in private copies (own mount namespace); prints a summary line.
# Development aid: no check uses it.
id=$1; S=/tmp/plant_$id
mkdir -p $S/repo $S/verif
cp -a /repo/. $S/repo/; cp -a /verif/. $S/verif/; rm -rf $S/verif/build
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
P=${3:-$prop}
unshare -rm bash -c "
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
bash /verif/seeded/$id/demo.sh >$S/demo0 2>&1; d0=\$?
git apply /verif/seeded/$id/patch.diff || { echo '$id: PATCH FAILS'; exit 1; }
bash /verif/seeded/$id/demo.sh >$S/demo1 2>&1; d1=\$?
t=skipped
if [ '$2' != notest ]; then
bash /opt/vp/test.sh $S/o.json >$S/test.log 2>&1
t=\$(python3 -c \"
import json
o=json.load(open('$S/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print([x for x in b['stable'] if x not in o['passed']][:4] or 'ok')\")
fi
c=skipped
if [ '$2' != nocheck ]; then cd /verif; s=\$(date +%s); timeout 900 python3-vt run.py $P >$S/check.log 2>&1; c=\$?; c=\"\$c (\$((\$(date +%s)-s)) s) \$(grep -m1 VIOLATION $S/check.log)\"; fi
echo \"$id: demo clean=\$d0 patched=\$d1 tests=\$t check $P=\$c\"
"
cp $S/check.log /tmp/seed/$id.log 2>/dev/null
rm -rf $S
