#!/bin/bash
# runs the repository's tests and compares with the baseline
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print('passed',len(o['passed']),'failed',o['failed'][:10],'missing from baseline',miss[:10])
P
