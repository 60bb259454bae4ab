#!/bin/bash
# build /repo and run its test suite; prints the number of passing tests and stable tests that fail
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
k='stable' if 'stable' in b else list(b)[0]
print(len(t['passed']), [x for x in b[k] if x not in set(t['passed'])][:8])
P
