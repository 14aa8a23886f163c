#!/bin/bash
# try.sh ID [also check these properties...]: all that a planted bug has to satisfy, in copies.
id=$1; shift
s=/verif/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
P=/tmp/p_$id; V=/tmp/v_$id; D=/tmp/d_$id
rm -rf $P $V $D; cp -a /repo $P; mkdir $V $D; cp -a /verif/checks /verif/lib /verif/driver /verif/MANIFEST.json /verif/properties.jsonl /verif/known_findings.json /verif/tools /verif/build $V/
mkdir $V/evidence; cp -a $s/. $D/; rm $D/patch.diff $D/meta.json
cp $s/patch.diff /tmp/p.$id.diff
unshare -m bash -c "
mount --bind $P /repo; mount --bind $V /verif; cd /repo
bash /opt/vp/build.sh > $D/build0.log 2>&1 || echo '$id: BUILD0 FAILED'
bash $D/demo.sh > $D/demo0.log 2>&1 || { echo '$id: DEMO FAILS UNPATCHED'; tail -5 $D/demo0.log; }
git apply $D/../p.$id.diff || echo '$id: PATCH DOES NOT APPLY'
bash /opt/vp/build.sh > $D/build1.log 2>&1 || { echo '$id: BUILD FAILED'; tail -20 $D/build1.log; }
bash /opt/vp/test.sh $D/out.json > $D/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$D/out.json'))
m=sorted(set(b['stable'])-set(o['passed']))
print('$id: tests', 'all pass' if not m else 'FAIL: %s' % m)
P
if bash $D/demo.sh > $D/demo1.log 2>&1; then echo '$id: DEMO PASSES PATCHED'; else echo '$id: demo fails as it should:' \$(tail -3 $D/demo1.log | cut -c1-150); fi
for p in $prop $*; do
  t=\$SECONDS
  cmd=\"python3-vt -B checks/run.py \$p\"
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick bash -c \"\$cmd\" > $D/check_\$p.log 2>&1; rc=\$?
  echo \"$id: check \$p exit \$rc in \$((SECONDS-t)) s: \$(grep -m1 VIOLATION $D/check_\$p.log)\"
  grep -v VIOLATION $D/check_\$p.log | head -12 | cut -c1-300 | sed 's/^/      /'
done
"
rm -rf $P $V /tmp/p.$id.diff
