#!/bin/bash
# trybug.sh ID [SECONDS]: tests, demonstration and check of the property with the planted bug applied to /repo
here=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
d=$here/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "$1 ($prop) demo on the unchanged tree: $?"; fi
git apply $d/patch.diff || exit 1
if [ -z "$NODEMO" ]; then
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "  demo with the bug: $? $(grep -m1 -a BROKEN /tmp/demo1.log)"
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 -c "
import json
a=json.load(open('/opt/vp/BASELINE.json'));b=json.load(open('/tmp/bug.json'))
st=a.get('stable') or a.get('passed') or a
print('  stable tests failing:',[t for t in st if t not in b['passed']])"
fi
(cd "$here"; VSIM_SECONDS=${2:-50} timeout 900 python3 check.py $prop quick; echo "  check exit $?") 2>&1 | tail -4
git checkout -q -- .
