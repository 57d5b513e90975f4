#!/bin/bash
# seeds.sh "C01 C02 ..." "seed seed ..." [tier]: are the checks quiet for these seeds?
cd "$(dirname "$0")/.."
for s in $2; do for c in $1; do VERIF_SEED=$s python3 check.py $c ${3:-quick} | grep -v '^HELD' | sed "s/^/$c seed $s: /"; [ ${PIPESTATUS[0]} = 0 ] || echo "$c seed $s: NOT QUIET"; done; done
echo seeds done
