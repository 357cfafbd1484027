#!/bin/bash
# run the stable tests of /repo; prints OK or the failing ones
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/w/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/w/t.json'))['passed'])
m=sorted(b-t); print("OK" if not m else m[:10]); sys.exit(bool(m))
P
