#!/bin/sh
# runs the checks named (default: all in MANIFEST.json), one line each
cd "$(dirname "$0")/.."
T=${TIER:-quick}
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  s=$(date +%s)
  python3 check.py $p $T > /tmp/check.$p.log 2>&1
  rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(grep -E 'VIOLATION|PROBLEM|ERROR|KNOWN' /tmp/check.$p.log | cut -c1-220 | head -5)"
done
