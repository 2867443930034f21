#!/usr/bin/env python3
"""sweep.py [-w N] [ID[:PROP]...]: run the check of each planted bug's property against it, in copies; prints what was reported."""
import json, os, re, subprocess, sys, time, threading, queue
V = '/verif'
a = sys.argv[1:]
n = 2
quick = '-q' in a
a = [x for x in a if x != '-q']
if a and a[0] == '-w': n = int(a[1]); a = a[2:]
SD = V + '/seeded'
if a and a[0] == '-d': SD = a[1]; a = a[2:]
ids = a or sorted(os.listdir(SD))
q = queue.Queue()
for i in ids:
    if SD != V + '/seeded' and ':' not in i:
        for x in json.load(open(f'{SD}/{i}/meta.json'))['props']: q.put(i + ':' + x)
    else: q.put(i)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def work(w):
    d = f'/tmp/sweep{os.getpid()}_{w}'
    sh(f'rm -rf {d}; mkdir -p {d}; rsync -a --exclude .work --exclude seeded --exclude .git {V}/ {d}/verif/ || cp -a {V} {d}/verif; cp -a /repo {d}/repo')
    sh(f"sed -i 's#/repo/rstar#{d}/repo/rstar#' {d}/verif/native/Cargo.toml")
    if quick: sh("sed -i 's/^    ms = {.*/    ms = 400/' " + d + "/verif/bin/check.py")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        bid, _, prop = i.partition(':')
        prop = prop or json.load(open(f'{SD}/{bid}/meta.json'))['property']
        sh('git checkout -q -- . && git reset -q --hard', cwd=f'{d}/repo')
        r = sh(f'git apply {SD}/{bid}/patch.diff', cwd=f'{d}/repo')
        if r.returncode: print(bid, 'patch does not apply'); continue
        t = time.time()
        r = sh(f'python3 bin/check.py {prop}', cwd=f'{d}/verif', env=dict(os.environ, RSTAR_REPO=f'{d}/repo', VERIF_TIER='quick', VERIF_SEED='1'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        c = [l.split('contracts: ')[1] for l in r.stdout.splitlines() if 'contracts: ' in l]
        nf = len([l for l in r.stdout.splitlines() if 'failed obligation' in l])
        print('%-26s %s rc=%s %4.0fs %-10s %s %s' % (bid, prop, r.returncode, time.time() - t, 'INPUT' if v and 'no-failing' not in v[0] else 'PROOF-ONLY' if v else 'MISSED', c[0].split(',')[0] if c else '', '(%d obligations)' % nf if nf else ''), flush=True)
        for l in r.stdout.splitlines():
            if 'not decided by proof' in l or (SD != V + '/seeded' and 'failed obligation' in l): print('      ', l.strip()[:230], flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-600:], r.stderr[-600:])
    sh(f'rm -rf {d}')
ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
