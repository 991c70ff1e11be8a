#!/bin/bash
# confirm.sh <id> [nocheck]: the demonstration passes on the tree and fails with the patch, the
# stable tests pass with it; then the property's check is run against it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
bash $d/demo.sh > /tmp/confirm.$id.clean 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 2
bash $d/demo.sh > /tmp/confirm.$id.bug 2>&1; b=$?
bash /opt/vp/build.sh > /tmp/confirm.build 2>&1 || echo "$id: BUILD FAILS"
bash /opt/vp/test.sh /tmp/confirm.json > /dev/null 2>&1
t=$(python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open('/tmp/confirm.json'))
def names(x):
    for k in ('passed','passing','stable','pass','tests'):
        if isinstance(x,dict) and k in x: return set(map(str,x[k]))
    return set(map(str,x)) if isinstance(x,list) else set()
m=names(base)-names(got)
print("ok" if not m else "MISSING %s"%sorted(m))
P
)
if [ "$2" != nocheck ]; then /verif/run.sh check $prop quick > /tmp/confirm.$id.check 2>&1; c=$?; v=$(grep -m1 VIOLATION /tmp/confirm.$id.check); fi
git -C /repo checkout -q -- .
echo "$id: demo clean=$a bug=$b | tests $t | check $prop exit=$c $v"
[ $b = 8 ] && tail -5 /tmp/confirm.$id.bug
[ $a = 0 ] || tail -5 /tmp/confirm.$id.clean
true
