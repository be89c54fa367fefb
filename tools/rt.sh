#!/bin/bash
# build and test /repo (development helper)
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def ids(x,k):
    return set(x.get(k,[]))
print({k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in o.items()})
P
