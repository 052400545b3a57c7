#!/bin/bash
# run checks, print one line each
cd /verif; ids=${@:-$(ls contracts/C*.py | xargs -n1 basename | sed 's/.py//')}
for i in $ids; do s=$(date +%s.%N); out=$(python3-vt run.py $i 2>&1); rc=$?; e=$(date +%s.%N); echo "$i rc=$rc $(echo "$e-$s"|bc|cut -c1-5)s $(echo "$out"|tail -1|cut -c1-150)"; done
