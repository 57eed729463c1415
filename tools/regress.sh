#!/bin/bash
# runs the repository's tests on /repo's working tree and reports baseline tests that do not pass
O=$(mktemp /tmp/regXXXX.json); bash /opt/vp/test.sh $O >/tmp/reg.log 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
base=b['stable']
miss=[t for t in base if t not in set(r['passed'])]
print('baseline',len(base),'missing',miss)
P
rm -f $O
