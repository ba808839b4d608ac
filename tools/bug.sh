#!/bin/bash
# tools/bug.sh ID [CHECK...]: confirm a planted bug (builds, tests pass, demo fails with it and passes without), then run checks on it
V=$(dirname "$(dirname "$(realpath "$0")")")
id=$1; shift
D=$V/seeded/$id
cd /repo || exit 2
git diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh >/tmp/bug.out 2>&1; echo "demo unpatched: $?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "does not build"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b if isinstance(b,list) else b.get("stable") or b.get("passed") or b.get("tests")
o=json.load(open("/tmp/bug.json"))
print("tests missing:", [x for x in b if x not in o["passed"]])
P
fi
timeout 300 bash $D/demo.sh >/tmp/bug.out 2>&1; echo "demo patched: $?"
tail -3 /tmp/bug.out
cd $V
for c in "$@"; do python3 check.py $c quick 2>&1 | grep -E "VIOLATION|MACHINERY|held|VIOLATED"; done
