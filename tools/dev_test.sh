#!/bin/bash
# developer helper: stable test suite of /repo
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/t.json'))
print("passed",len(r['passed']),"failed",len(r['failed']),"missing",len(b-set(r['passed'])))
P
