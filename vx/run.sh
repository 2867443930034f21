#!/bin/bash
# dev helper: extract and verify; args passed to verus
set -e
cd /verif/vx
extract/target/release/vx-extract --src ${SRC:-/repo/rstar/src} --contracts contracts --prelude prelude --names names.json --out /tmp/vx.rs --report /tmp/vx.json && python3 - <<'P'
import json
r=json.load(open('/tmp/vx.json'))
print('lost',r['lost'])
P
timeout 170 verus --rlimit 30 --crate-type lib /tmp/vx.rs --multiple-errors 5 "$@"
