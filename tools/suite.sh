#!/bin/bash
# run the repository's tests and compare with the stable list
bash /opt/vp/test.sh /tmp/suite_out.json >/tmp/suite.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/suite_out.json'))
p=set(o['passed']); m=[x for x in b['stable'] if x not in p]
print("stable %d, not passing now: %d %s" % (len(b['stable']), len(m), m[:10]))
P
