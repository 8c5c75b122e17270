#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks": turns the uncommitted change in /tmp/sw into seeded/ID (demo.c/demo.py written separately)
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/sw diff -- src build > $S/patch.diff
git -C /tmp/sw checkout -q -- .
python3 - "$@" <<'P' > $S/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
[ -f $S/demo.sh ] || cat > $S/demo.sh <<'D'
#!/bin/bash
# exit 0: behaves as specified
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -O1 -w -I/repo/build/c -o "$T/demo" "$H/demo.c" /repo/build/c/coco.c -lm || exit 99
cd "$T" && ./demo
D
wc -l $S/patch.diff
