#!/bin/bash
# sweep.sh "C01 C03" "1 2 3" [tier]: false-alarm sweep
for s in $2; do for c in $1; do
  o=$(cd /verif && VERIF_SEED=$s VERIF_TIER=${3:-quick} timeout 3000 /opt/pycold-venv/bin/python -B check.py $c 2>&1); rc=$?
  echo "$c seed $s rc $rc $(echo "$o" | grep -E 'VIOLATION|KNOWN' | head -3)"; [ $rc = 0 ] || echo "$o" | tail -15
done; done
