#!/bin/bash
# runall.sh [quick|thorough] [ids...]: runs every registered property; prints one summary line each.
cd "$(dirname "$0")"; tier="${1:-quick}"; shift
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('properties.jsonl')))")
for i in $ids; do
  out=$(./run.sh $i --tier $tier 2>&1); rc=$?
  echo "$i rc=$rc $(echo "$out" | grep -E '^property=|INCONCL|VIOLATION' | cut -c1-200 | head -3 | tr '\n' ' ')"
  if [ $rc -ne 0 ]; then echo "$out" | cut -c1-400 | head -${LINES_MAX:-25}; [ -n "$STOP" ] && exit 1; fi
done
