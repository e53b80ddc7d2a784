#!/bin/bash
# rebuild /repo and run its stable tests; prints a summary
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { tail -20 /tmp/vp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_out.json >/tmp/vp_test.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/vp_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print('stable passing:',len(b['stable'])-len(m),'of',len(b['stable']),'missing',m[:5],'failed',o['failed'][:5])
import sys; sys.exit(1 if m else 0)
P
