#!/bin/bash
# seedtest.sh ID...: in a private copy of /repo mounted over /repo (own mount
# namespace): the demo passes unpatched; with the patch it builds, the stable
# tests pass, the demo fails; and what the property's check says.
# NOCHECK=1 skips the check, NOTEST=1 the tests; CHECKS="C01 C02" overrides.
if [ -z "$IN_NS" ]; then
  export IN_NS=1
  for id in "$@"; do
    W=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$W/repo"; cp -a /verif "$W/verif"
    unshare -m bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && bash /verif/tools/seedtest.sh $id"
    rm -rf "$W"
  done
  exit
fi
id=$1; S=/verif/seeded/$id; cd /repo
git checkout -q -- . 2>/dev/null
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh > /tmp/bl.$$ 2>&1
bash "$S/demo.sh" > /tmp/d0.$$ 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/bl.$$ 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/bl.$$; exit 1; }
bash "$S/demo.sh" > /tmp/d1.$$ 2>&1; r1=$?
t=skipped
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/o.$$ > /dev/null 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.$$'))
st=b.get('stable') or b.get('passed') or b
st=st if isinstance(st,list) else list(st)
m=[x for x in st if x not in o['passed']]
print('tests ok' if not m else 'TESTS FAIL %s'%m[:5])")
fi
echo "$id: demo unpatched=$r0 patched=$r1; $t"
[ $r0 -ne 0 ] && tail -5 /tmp/d0.$$
[ $r1 -eq 0 ] && tail -5 /tmp/d1.$$
if [ -z "$NOCHECK" ]; then
 for p in ${CHECKS:-$prop}; do VERIF_SEED=1 VERIF_TIER=quick python3 /verif/run.py $p > /tmp/c.$$ 2>&1; rc=$?
 echo "$id: check $p rc=$rc $(grep -c '^VIOLATION' /tmp/c.$$) $(grep -m1 'violating case' /tmp/c.$$ | cut -c1-220)"
 [ $rc -ge 2 ] && tail -5 /tmp/c.$$
 done
fi
rm -f /tmp/bl.$$ /tmp/d0.$$ /tmp/d1.$$ /tmp/o.$$ /tmp/c.$$
