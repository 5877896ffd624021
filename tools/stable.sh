#!/bin/bash
# Rebuilds /repo and compares its tests with the stable baseline.
bash /opt/vp/build.sh >/tmp/stable.build.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/stable.build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/stable.json'))
m=set(b['stable'])-set(t['passed'])
print("stable tests missing:",sorted(m) if m else "none")
raise SystemExit(1 if m else 0)
P
