#!/bin/bash
# trybug.sh ID [notest] : in a private mount namespace, try a planted bug on a
# copy of /repo: demo on the unchanged tree, patch, build, demo, tests, check
ID=$1
S=/verif/seeded/$ID
C=/tmp/tb-$ID
test -d $C || cp -a /repo $C
unshare -Urm bash -c "
mount --bind $C /repo
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh > /tmp/tb-$ID.log 2>&1
bash $S/demo.sh > /tmp/tb-$ID.d0 2>&1; echo $ID demo-unchanged rc=\$?
git apply $S/patch.diff || echo APPLY-FAILED
bash /opt/vp/build.sh > /tmp/tb-$ID.log 2>&1 || echo BUILD-FAILED
bash $S/demo.sh > /tmp/tb-$ID.d1 2>&1; echo $ID demo-patched rc=\$?; tail -2 /tmp/tb-$ID.d1
if test x$2 != xnotest; then
bash /opt/vp/test.sh /tmp/tb-$ID.json > /tmp/tb-$ID.tlog 2>&1
python3 -c \"
import json
r=json.load(open('/tmp/tb-$ID.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('$ID passed',len(r['passed']),'failed',r['failed'])\"
fi
P=\$(python3 -c \"import json;print(json.load(open('$S/meta.json'))['property'])\")
cd /verif; python3 engine/check.py --property \$P | grep -v '^  failed' | cut -c1-300; echo $ID check-rc \${PIPESTATUS[0]}
"
rm -rf /tmp/tb-$ID
