#!/bin/bash
# run the repository's stable tests on /repo and list those that no longer pass
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable_out.json'))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print('stable tests failing:', m)
P
