#!/bin/bash
# confirm.sh ID...: in a private mount namespace, on a copy of /repo: demo on
# the unchanged tree, apply, stable tests, demo, the check. Development tool.
for id in "$@"; do
D=$(mktemp -d /tmp/confirm-XXXXXX)
cp -a /repo $D/repo; cp -a /opt/vp $D/vp; cp -a /opt/venv $D/venv; mkdir $D/verif; cp -a /verif/. $D/verif/
unshare -m bash -s $id $D <<'X' > $D/log 2>&1
id=$1; D=$2
mount --bind $D/repo /repo; mount --bind $D/vp /opt/vp; mount --bind $D/venv /opt/venv; mount --bind $D/verif /verif
S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; bash $S/demo.sh > $D/demo0 2>&1; r0=$?
git apply $S/patch.diff || echo NOAPPLY
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh $D/out.json > $D/test.log 2>&1
python3 - $D/out.json <<'P' > $D/tests 2>&1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    if "stable" in x: return set(x["stable"])
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    raise SystemExit('keys %s'%list(x))
m=passed(b)-passed(o)
print('tests-broken:%d'%len(m), sorted(m)[:3])
P
fi
bash $S/demo.sh > $D/demo1 2>&1; r1=$?
cd /verif; ./check.sh $prop > $D/check 2>&1; rc=$?
PYVC_NOCASES=1 ./check.sh $prop > $D/checkp 2>&1; rp=$?
echo "$id $prop demo:$r0/$r1 $(cat $D/tests 2>/dev/null) check:$rc $(grep -h VIOLATION $D/check | sed 's/.*replay=[^ ]*//') prooffails:$rp"
grep -h '^failed ob' $D/checkp | sort -u| head -3
grep -h undecided $D/checkp | cut -c1-250| head -3
[ $r0 = 0 ] || tail -3 $D/demo0
grep -v '^failed ob' $D/check | grep -A1 failing | cut -c1-300
X
cat $D/log; rm -rf $D
done
