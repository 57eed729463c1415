#!/bin/bash
# tp.sh PID seeds... : quick check, short output
P=$1; shift
for s in "$@"; do VERIF_SEED=$s python3 /verif/check.py $P >/tmp/t.$P.$s 2>&1; echo "rc $?"; grep -aE "^failing|^minimal|SUMMARY|quick seed|raised|machinery|unexpected" /tmp/t.$P.$s | cut -c1-400; done
