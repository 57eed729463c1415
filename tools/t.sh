#!/bin/bash
# t.sh PID [seeds...]: run a check for several seeds, short output (stops at the first failure)
p=$1; shift; for i in ${@:-1}; do VERIF_SEED=$i python3 /verif/check.py $p > /tmp/t.$p 2>&1; rc=$?; tail -5 /tmp/t.$p | cut -c1-1200 | grep -v '^$'; [ $rc = 0 ] || exit $rc; done
python3 - <<P
import json
d=json.load(open('/verif/evidence/$p.json'))['coverage']; print('discarded',d['discarded'],d['classes'],d['cases_per_check'])
P
