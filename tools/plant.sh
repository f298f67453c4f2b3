#!/bin/bash
# plant.sh ID: confirm a planted bug in a scratch copy of /repo: builds, stable tests pass,
# demo passes without and fails with it. Then (unless NOCHECK) run the property's check on it.
id=$1; here="$(cd "$(dirname "$0")/.." && pwd)/seeded/$id"; w=/tmp/plant_$id
[ -f "$here/patch.diff" ] || { echo "no $here"; exit 2; }
rm -rf "/tmp/plant_$id"; cp -a /repo "$w" || exit 2
cd "$w"
dd=$(mktemp -d); cp -r "$here"/. "$dd"; rm -f "$dd"/patch.diff "$dd"/meta.json
if [ -z "$NODEMO" ]; then
bash "$dd/demo.sh" >/tmp/plant_$id.clean 2>&1; c=$?
git apply "$here/patch.diff" || { echo "patch does not apply"; exit 2; }
bash "$dd/demo.sh" >/tmp/plant_$id.patched 2>&1; p=$?
echo "$id demo: clean $c patched $p"
[ $c = 0 ] && [ $p != 0 ] || { tail -n 5 /tmp/plant_$id.clean /tmp/plant_$id.patched; }
else git apply "$here/patch.diff" || exit 2; fi
rm -rf "/tmp/plant_$id" "$dd"
[ -n "$NOCHECK" ] && exit
prop=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
git -C /repo apply "$here/patch.diff" || exit 2
if [ -n "$TESTS" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/plant_$id.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant_$id.json'))
st=set(b.get('stable',b.get('passed',[]))) if isinstance(b,dict) else set(b)
ok=set(r.get('passed',r.get('pass',[])))
print("$id stable tests missing:",sorted(st-ok)[:5],len(st))
P
fi
/verif/check.sh $prop > /tmp/plant_$id.check 2>&1; echo "$id $prop check exit $?: $(grep -E 'VIOLATION|^run ' /tmp/plant_$id.check | tr '\n' ' ') $(tail -1 /tmp/plant_$id.check)"
git -C /repo checkout -- .
[ -n "$TESTS" ] && bash /opt/vp/build.sh >/dev/null 2>&1
true
