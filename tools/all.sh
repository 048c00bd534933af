#!/bin/bash
# all.sh [tier]: run every check, one line each
cd "$(dirname "$0")/.."
for c in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
 s=$(date +%s); o=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${1:-quick} timeout 3000 python3-vt check.py $c 2>&1); rc=$?
 echo "$c rc=$rc $(( $(date +%s)-s ))s $([ $rc -ne 0 ] && echo "$o" | head -3 | cut -c1-600)"
done
