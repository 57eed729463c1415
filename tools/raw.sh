#!/bin/bash
# raw.sh PID [seed] [key by...]: run a check whose code appends "key=value ..." lines to /tmp/exp.log, histogram one key by decade
rm -f /tmp/exp.log; VERIF_SEED=${2:-1} python3 /verif/check.py $1 | tail -3 | cut -c1-400
