#!/bin/bash
# tools/runtests.sh: builds and tests /repo's working tree in a scratch copy (mounted over /repo in a private namespace; the copy
# loses the vcheck-pass tag, which scripts/fabricate cannot parse).
T=$(mktemp -d /tmp/rt-XXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo $T/repo; export T
unshare -Urm bash -c '
mount --bind $T/repo /repo; cd /repo; git tag -d vcheck-pass >/dev/null 2>&1
bash /opt/vp/build.sh >$T/b.log 2>&1 || { echo "BUILD FAILED"; tail -n 5 $T/b.log; exit 1; }
bash /opt/vp/test.sh $T/t.json >$T/t.log 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; p=set(json.load(open("$T/t.json"))["passed"])
miss=[t for t in b if t not in p]
print("stable tests: %d of %d pass" % (len(b)-len(miss), len(b)), miss[:8])
PY
'
