#!/bin/bash
# Build /repo and run its stable tests; prints failures only.
set -e
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1 || true
python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x.get(k),list): return set(map(str,x[k]))
    return set()
bn,on=names(b),names(o)
print('baseline',len(bn),'passed',len(on),'missing',sorted(bn-on)[:10])
E
