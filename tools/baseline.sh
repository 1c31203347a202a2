#!/bin/bash
# build + test + compare with baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    for k in ('passed','stable','tests','stable_passed'):
        if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return None
pb,po=passed(b),passed(o)
if pb is None or po is None: print(b.keys(),o.keys())
else: print(len(pb),len(po),'missing:',sorted(pb-po)[:10])
P
cd /repo && git status --short | head
