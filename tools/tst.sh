#!/bin/bash
# run tests & compare with baseline
bash /opt/vp/test.sh /tmp/out.json > /tmp/tst.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o.get('passed',o.get('pass',[])))
bl=b.get('stable_passing') or b.get('passed') or b.get('tests') or b
print(len(p), list(o.keys()), list(b.keys()) if isinstance(b,dict) else '')
for k,v in b.items():
    if isinstance(v,list):
        miss=[t for t in v if t not in p]
        print(k,len(v),'missing',miss[:10])
P
