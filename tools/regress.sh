#!/bin/bash
# Rebuild /repo and compare its tests with the baseline.
bash /opt/vp/build.sh >/tmp/regress-build.log 2>&1 || { tail -20 /tmp/regress-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/regress-out.json >/tmp/regress-test.log 2>&1
python3 - <<'E'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/regress-out.json'))
m=b-set(o['passed']); print("stable",len(b),"missing",sorted(m)); sys.exit(bool(m))
E
