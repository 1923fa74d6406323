#!/bin/bash
# Build /repo and compare its test results with the baseline.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test_out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/test_out.json'))
st=b.get('stable') or b.get('passed')
ps=set(o.get('passed',[]) if isinstance(o.get('passed'),list) else [k for k,v in o.items() if v=='passed'])
miss=[t for t in st if t not in ps]
print(len(st),'stable;',len(miss),'missing',miss[:40])
P
