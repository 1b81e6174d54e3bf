#!/bin/bash
# tools/try.sh BINARY SCENARIO "PROPS" [RUNS]: a quick look at what one simulator finds.
cd "$(dirname "$0")/.."
bin=$(python3 tools/simbuild.py $1 | awk '{print $2}') || exit 2
mkdir -p /tmp/try
for p in $3; do
  echo "== $1 $2 $p"
  timeout 120 $bin run --scenario $2 --prop $p --count ${4:-20000} --time-limit ${5:-10} --replay-dir /tmp/try --out /tmp/try/out.json --known known_findings.txt --min-time 5 2>&1 | tail -3
  python3 - <<'P'
import json
d=json.load(open('/tmp/try/out.json.json'))
print({k:d[k] for k in d if k in('runs','nontrivial','discards','known')})
P
done
