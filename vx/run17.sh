#!/bin/bash
# dev helper: C17's extraction (macro-expanded point types)
set -e
cd /verif/vx
(cd ${REPO:-/repo}/rstar && RUSTC_BOOTSTRAP=1 cargo rustc --offline --lib --features mint --target-dir /tmp/exptarget -- -Zunpretty=expanded > /tmp/exp.rs 2>/tmp/exp.err)
extract/target/release/vx-extract --src ${REPO:-/repo}/rstar/src --contracts contracts --more builtin --expanded /tmp/exp.rs --prelude prelude --names names.json --out /tmp/vx17.rs --report /tmp/vx17.json
python3 -c "
import json
r=json.load(open('/tmp/vx17.json')); print('lost',r['lost'],'unknown',r['unknown'])"
timeout 170 verus --rlimit 30 --crate-type lib /tmp/vx17.rs --no-trait-conflicts --multiple-errors 5 --verify-module builtin::point --verify-module builtin::mint_points "$@"
