#!/bin/bash
# usage: sweep.sh "IDS" "SEEDS" [cases]   (development aid: runs checks for several seeds)
cd "$(dirname "$0")/.."
for i in $1; do for s in $2; do VERIF_SEED=$s python3 run_check.py $i ${3:+--cases $3} 2>&1 | cut -c1-1500 | tail -8; done; done
