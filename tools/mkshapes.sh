#!/bin/bash
# writes vx/shapes.json: the loops each contract was written against (run on the unchanged tree)
set -e
cd /verif/vx
(cd /repo/rstar && RUSTC_BOOTSTRAP=1 cargo rustc --offline --lib --features mint --target-dir /tmp/exptarget -- -Zunpretty=expanded > /tmp/exp.rs 2>/tmp/exp.err)
extract/target/release/vx-extract --src /repo/rstar/src --contracts contracts --more builtin --expanded /tmp/exp.rs --prelude prelude --out /tmp/s17.rs --report /tmp/s17.json
extract/target/release/vx-extract --src /repo/rstar/src --contracts contracts --prelude prelude --out /tmp/s.rs --report /tmp/s.json
python3 - <<'P'
import json
d={};n={}
for f in ('/tmp/s17.json','/tmp/s.json'):
    for i in json.load(open(f))['items']:
        if i.get('shape'): d[i['id']]=i['shape']
        if i['names']['p'] or i['names']['l']: n[i['id']]=i['names']
json.dump(d,open('/verif/vx/shapes.json','w'),indent=0,sort_keys=True)
json.dump(n,open('/verif/vx/names.json','w'),separators=(',',':'),sort_keys=True)
P
python3 /verif/bin/literals.py /verif/vx/literals.json
