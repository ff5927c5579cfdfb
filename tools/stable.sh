#!/bin/bash
# Runs /repo's tests and reports stable tests that do not pass.
o=$(mktemp)
bash /opt/vp/build.sh >/dev/null 2>&1
bash /opt/vp/test.sh "$o" >/dev/null 2>&1
python3 - "$o" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-o); print('stable',len(b),'missing',m); sys.exit(bool(m))
P
r=$?; rm -f "$o"; exit $r
