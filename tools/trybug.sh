#!/bin/bash
# trybug.sh ID [tests]: demo on the unchanged tree, then with the patch: build, stable tests, demo, check
cd /repo; d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo dirty; exit 1; }
if [ "$2" != check ]; then
bash $d/demo.sh >/tmp/tb.$1.0 2>&1; echo "$1 demo unchanged: $?"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/tb.$1.b 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/tb.$1.json >/dev/null 2>&1
python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/tb.{sys.argv[1]}.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set()
bb=passed(b); rr=passed(r); print(sys.argv[1],"tests broken:", sorted(bb-rr)[:6], len(bb), len(rr))
P
bash $d/demo.sh >/tmp/tb.$1.1 2>&1; echo "$1 demo patched: $?"
else git apply $d/patch.diff; fi
if [ "$2" != nocheck ]; then (cd /verif; timeout 900 python3 run.py $p >/tmp/tb.$1.c 2>&1; echo "$1 check $p: $?"; grep -h VIOLATION /tmp/tb.$1.c; tail -2 /tmp/tb.$1.c); fi
git -C /repo checkout -- .
