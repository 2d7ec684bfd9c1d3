#!/bin/bash
# run the project's tests and compare with the stable baseline
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(d['passed']); miss=[x for x in b['stable'] if x not in p]
print('stable',len(b['stable']),'missing',miss[:10])
P
