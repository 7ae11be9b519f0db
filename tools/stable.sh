#!/bin/sh
# stable tests on /repo's working tree
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/x.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; x=json.load(open('/tmp/x.json'))['passed']
m=[t for t in b if t not in x]; print(len(b)-len(m),'of',len(b),'stable pass',m); raise SystemExit(bool(m))"
