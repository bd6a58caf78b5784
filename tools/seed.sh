#!/bin/bash
# seed.sh ID [notest]: judges a planted bug in a private mount namespace: builds and tests a patched copy of /repo,
# runs its demo with and without the patch, then the property's check. Nothing outside the scratch folder changes.
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/seedXXXXXX); OUT=${SEEDOUT:-/tmp/seedout}; mkdir -p $OUT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a /repo $W/repo; cp -a $S $W/demo; rm -f $W/demo/*.diff; mkdir $W/verif; cp -a /verif/. $W/verif/; rm -rf $W/verif/seeded $W/verif/work $W/verif/evidence; mkdir $W/verif/work $W/verif/evidence
cp -a /opt/vp/ccache $W/ccache
unshare -Urm bash -c "
mount --bind $W/ccache /opt/vp/ccache; mount --bind $W/repo /repo; cd /repo
git checkout -q -- . ; timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; echo \"demo unchanged: \$?\"
git apply $S/patch.diff || { echo PATCH FAILS; exit; }
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; echo \"demo patched: \$?\"; tail -2 $W/d1
if [ '$2' != notest ]; then bash /opt/vp/test.sh $W/t.json >$W/tl 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json')); s=b.get('stable') or b.get('passed') or b.get('tests')
m=[x for x in s if x not in set(t['passed'])]
print('tests: %d stable, %d missing %s'%(len(s),len(m),m[:4]))
P
fi
git status --short | head -3
mount --bind $W/verif /verif; cd /verif; timeout 900 python3 check.py $P --tier quick >$W/c 2>&1; echo \"check $P: \$?\"; grep -E 'VIOLATION|error' $W/c | head -3
" 2>&1 | sed "s/^/[$ID] /" | tee $OUT/$ID
rm -rf "$W"
