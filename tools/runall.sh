#!/bin/bash
# runall.sh [tier] [check.py options...]: run every check of MANIFEST.json in order, one summary line each
cd "$(dirname "$0")/.." || exit 2
T=${1:-quick}; shift
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  /opt/venv/bin/python -B check.py "$p" --tier "$T" "$@" > "/tmp/runall.$p.log" 2>&1; rc=$?
  echo "$p rc=$rc $(tail -1 "/tmp/runall.$p.log")"
done
