#!/bin/bash
# runs the repository's tests and reports stable tests that no longer pass
bash /opt/vp/test.sh /tmp/bt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=set(json.load(open('/tmp/bt.json'))['passed'])
m=[x for x in b if x not in t]
print('stable',len(b),'missing',m)
P
