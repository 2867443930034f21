#!/usr/bin/env python3
"""mutsearch.py DIR [-w N]: for the mutants Verus rejects (DIR/proof.txt), which does the search on the real crate hit? -> DIR/search.txt (dev tool)"""
import os, re, subprocess, sys, threading, queue
D = sys.argv[1]; N = int(sys.argv[3]) if len(sys.argv) > 3 else 2
V = '/verif'
PR = {'aabb.rs': 'C15 C16 C18 C10 C02', 'bulk': 'C04 C02', 'iterators.rs': 'C05 C06 C11', 'nearest': 'C10 C11 C12 C13', 'removal': 'C07 C08 C09 C21 C13', 'rstar.rs': 'C01 C02 C03',
      'selection': 'C05 C06 C07 C08', 'node.rs': 'C01 C02 C05', 'object.rs': 'C18 C19 C05', 'params': 'C20', 'point.rs': 'C15 C16 C17', 'rectangle': 'C18', 'rtree.rs': 'C20 C01 C02 C04 C05 C07'}
done = {l.split()[0] for l in open(D + '/search.txt')} if os.path.exists(D + '/search.txt') else set()
q = queue.Queue()
for l in sorted(open(D + '/proof.txt')):
    f, r = l.split()[:2]
    if r == 'FAIL' and f not in done: q.put(f)
lock = threading.Lock()
def work(w):
    r = f'/tmp/ms_{w}'
    subprocess.run(f'rm -rf {r}; mkdir -p {r}; cp -a /repo {r}/repo; mkdir {r}/native; cp -a {V}/native/src {V}/native/Cargo.* {r}/native/; sed -i s#/repo/rstar#{r}/repo/rstar# {r}/native/Cargo.toml', shell=True)
    while True:
        try: f = q.get_nowait()
        except queue.Empty: break
        subprocess.run(f'git -C {r}/repo checkout -q -- . && git -C {r}/repo apply {D}/{f}', shell=True)
        src = re.search(r'^\+\+\+ b/rstar/src/(.*)', open(D + '/' + f).read(), re.M).group(1)
        props = next(v for k, v in PR.items() if k in src).split()
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--features', ','.join(props), '-j', '3'], cwd=r + '/native', capture_output=True, text=True)
        if p.returncode: res = 'NOBUILD'
        else:
            hits = []
            for P in props:
                subprocess.run(f'rm -rf {r}/w; mkdir {r}/w', shell=True)
                try: p = subprocess.run(['nice', f'{r}/native/target/release/rsearch', '--prop', P, '--seed', '1', '--ms', '9000', '--out', f'{r}/w/o', '--replay-dir', f'{r}/w'], capture_output=True, text=True, timeout=120)
                except subprocess.TimeoutExpired: hits.append(P + '?'); continue
                if p.returncode: hits.append(P)
            res = ' '.join(hits) or 'NONE'
        with lock: open(D + '/search.txt', 'a').write(f'{f} {src} {res}\n')
    subprocess.run(f'rm -rf {r}', shell=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
