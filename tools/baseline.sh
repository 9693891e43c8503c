#!/bin/bash
# build + stable tests of /repo (or $1); prints missing stable tests
R=${1:-/repo}
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/_out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in o['passed']]
print(len(b)-len(m),"of",len(b),"pass; missing:",m); sys.exit(bool(m))
P
