#!/bin/bash
# allchk.sh [REPO [ids...]]: run the quick checks on a tree and print one line each (and what is wrong)
export VERIF_REPO=${1:-/repo}; shift
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}
cd /verif
for i in $ids; do
  timeout 900 python3 check.py $i quick > /tmp/allchk.$$ 2>&1; rc=$?
  grep -E "^(counterexample|INCONCLUSIVE)" /tmp/allchk.$$ | cut -c1-300 | sort | uniq -c | sort -rn | head -6
  echo "rc=$rc $(tail -1 /tmp/allchk.$$)"
done
rm -f /tmp/allchk.$$
