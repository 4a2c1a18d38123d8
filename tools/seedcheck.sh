#!/bin/bash
# seedcheck.sh ID [notest] [PROPERTY...]: validates ${SV:-/verif}/seeded/ID in a private copy of /repo bound over /repo (user namespace), then runs the checks.
set -u
ID=$1; shift; NOTEST=0; [ "${1:-}" = notest ] && { NOTEST=1; shift; }
W=/tmp/seed_$ID; rm -rf "$W"; mkdir -p "$W"
cp -a ${SR:-/repo} "$W/repo"; cp -a /opt/vp "$W/vp"; rsync -a --exclude seeded --exclude .git ${SV:-/verif}/ "$W/verif/" 2>/dev/null || { mkdir -p "$W/verif"; (cd ${SV:-/verif} && tar cf - --exclude=./seeded --exclude=./.git .) | tar xf - -C "$W/verif"; }
cp -a "${SV:-/verif}/seeded/$ID" "$W/demo"
PROPS="${*:-$(python3 -c "import json;print(json.load(open('${SV:-/verif}/seeded/$ID/meta.json'))['property'])")}"
cat > "$W/run.sh" <<R
set -e; mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; mount --bind $W/verif /verif
set +e; cd /repo; git checkout -q . ; export VERIF_SEED=1 VERIF_TIER=quick
bash /opt/vp/build.sh > $W/build0.log 2>&1 || echo "BUILD0 FAILED"
(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1); r=\$?; [ \$r = 0 ] || echo "$ID: DEMO FAILS UNPATCHED (\$r)"
git apply $W/demo/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/build1.log 2>&1 || echo "$ID: BUILD FAILS"
(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1); r=\$?; [ \$r != 0 ] || echo "$ID: DEMO PASSES PATCHED"
if [ $NOTEST = 0 ]; then
 bash /opt/vp/test.sh $W/test.json > $W/test.log 2>&1
 python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W/test.json'))['passed'])
print('$ID: tests', 'OK' if s<=p else 'BROKEN '+str(sorted(s-p)[:5]))
P
fi
cd /verif
for p in $PROPS; do
 timeout 900 python3-vt checks/run.py \$p quick > $W/check_\$p.log 2>&1; r=\$?
 echo "$ID: check \$p exit \$r \$(grep -c VIOLATION $W/check_\$p.log) violations"
done
R
unshare -Urm bash "$W/run.sh"
