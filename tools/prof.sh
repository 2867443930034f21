#!/bin/bash
# dev helper: the most expensive obligations of the last extraction (/tmp/vx.rs)
verus --crate-type lib /tmp/vx.rs --rlimit 60 --output-json --time-expanded --num-threads 8 "$@" 2>/dev/null > /tmp/prof.json
python3 - <<'P'
import json
j=json.loads(open('/tmp/prof.json').read())
print(j['verification-results'])
fs=[]
for m in j['times-ms']['smt']['smt-run-module-times']:
    for f in m['function-breakdown']: fs.append((f.get('rlimit',0)/1e6,f['time-micros']/1e6,f['function'],f['success']))
fs.sort(reverse=True)
for f in fs[:12]: print(f)
P
