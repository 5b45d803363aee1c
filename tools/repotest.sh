#!/bin/bash
# builds /repo and compares the stable tests with the baseline
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { tail -30 /tmp/rt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt_out.json >/tmp/rt_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt_out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
bp,op=passed(b),passed(o)
print('baseline',len(bp),'passed',len(op),'missing',sorted(bp-op)[:10])
P
