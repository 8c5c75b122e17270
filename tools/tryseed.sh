#!/bin/bash
# tools/tryseed.sh ID [check ids...]: confirms a planted bug in a scratch copy of /repo mounted over /repo in a private
# mount namespace (clean demo, patch, build, stable tests, demo with the patch) and runs the checks of its property on it.
ID=$1; shift
S=/verif/seeded/$ID
T=$(mktemp -d /tmp/seed-$ID-XXXX)
trap 'rm -rf "$T"' EXIT
cp -a /repo $T/repo; mkdir -p $T/build $T/ev $T/rp $T/demo
cp -r $S/. $T/demo; rm -f $T/demo/patch.diff $T/demo/meta.json
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
export S T P NOTEST
unshare -Urm bash -c '
mount --bind $T/repo /repo; mount --bind $T/ev /verif/evidence; mount --bind $T/rp /verif/replays
cd /repo
git checkout -q -- . ; git tag -d vcheck-pass >/dev/null 2>&1
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >$T/b0.log 2>&1 || echo "CLEAN BUILD FAILED"
timeout 300 bash $T/demo/demo.sh >$T/d0.log 2>&1; echo "demo clean: $? (want 0)"
fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >$T/b1.log 2>&1 || { echo "PATCHED BUILD FAILED"; tail -5 $T/b1.log; exit 1; }
timeout 300 bash $T/demo/demo.sh >$T/d1.log 2>&1; echo "demo patched: $? (want non-zero)"; tail -3 $T/d1.log
bash /opt/vp/test.sh $T/t.json >$T/t.log 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$T/t.json"))
p=set(r["passed"])
base=b.get("passed") or b.get("stable") or b.get("tests") or b
miss=[t for t in base if t not in p]
print("stable tests: %d of %d pass" % (len(base)-len(miss), len(base)), miss[:5])
PY
fi
for c in $P; do VERIF_BUILD=$T/build VERIF_SEED=${VERIF_SEED:-1} timeout 900 /verif/check.py $c >$T/c.log 2>&1; echo "check $c: exit $? (want 1)"; grep -v "^case" $T/c.log | tail -4 | cut -c1-400; done
'
