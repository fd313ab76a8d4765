#!/bin/bash
# All checks with several seeds: sweep.sh "SEEDS" [IDs...]
cd "$(dirname "$0")/.."
seeds=$1; shift
ids=${*:-$(ls pbt/props | sed -n "s,^c\([0-9]*\).py,C\1,p")}
for s in $seeds; do for c in $ids; do VERIF_SEED=$s timeout 880 python3 check.py $c > /tmp/sweep.$$ 2>&1 || { echo "seed $s $c rc $?"; cat /tmp/sweep.$$; }; done; done
rm -f /tmp/sweep.$$
