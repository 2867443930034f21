#!/usr/bin/env python3
"""eqv.py [-w N] [TRANSFORM...]: apply a behaviour-preserving rewrite everywhere in a copy of the crate (file by file as long as
it compiles), run the stable tests' lib part, and print which obligations the proof would report: each is a false alarm."""
import sys; sys.path.insert(0, '/verif/bin')
import os, re, subprocess, sys, glob, io, contextlib, threading, queue
V = '/verif'
ALL = 'noop noop2 taillet tailret block hoistarg condlet matchlet blockstmt defer swaplet elseafter splitand inlinelet negif flipcmp flipeq negcmp opassign commute swapand andif demorgan armswap iflet2match match2iflet loopmatch whilenext question isempty lenzero clblock deref retunit renlocal renparam'.split()
a = sys.argv[1:]
if a and a[0] == '--one':
    t, d = a[1], a[2]
    src = open(V + '/bin/check.py').read()
    assert src.rstrip().endswith('\nmain()'); src = src.rstrip()[:-len('main()')]
    os.environ['RSTAR_REPO'] = d + '/repo'
    sys.argv = [V + '/bin/check.py', 'C02']
    g = {'__file__': V + '/bin/check.py', '__name__': 'x'}
    exec(compile(src, 'check.py', 'exec'), g)
    g['ME'] = {'functions': ['.'], 'items': ['.'], 'files': ['.']}
    g['WORK'] = d + '/work'
    subprocess.run(['rm', '-rf', d + '/work']); os.makedirs(d + '/work')
    p = g['prove']()
    print(t, p.state, len(p.fns), '%.0fs' % p.wall)
    for w in p.why: print('    why:', w[:700])
    for f in p.failures: print('    FALSE ALARM:', f['item'], '|', f['text'][:260])
    sys.exit(0)
n = 2
if a and a[0] == '-w': n = int(a[1]); a = a[2:]
q = queue.Queue()
for t in a or ALL: q.put(t)
X = V + '/tools/eqv/target/release/eqv'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def work(w):
    d = f'/tmp/eqv/w{w}'
    sh(f'rm -rf {d}; mkdir -p {d}; cp -a /repo {d}/repo')
    while True:
        try: t = q.get_nowait()
        except queue.Empty: break
        sh('git reset -q --hard', cwd=d + '/repo')
        R = d + '/repo/rstar'
        used, drop = 0, []
        if '/' in t:  # a patch file
            if sh(f'git apply {t}', cwd=d + '/repo').returncode: print('==', t, 'does not apply'); continue
            r = sh(f'python3 {V}/tools/eqv.py --one {t} {d}')
            sh(f'cp {d}/work/vx.rs /tmp/eqv/{t.split("/")[-2]}.rs')
            print('==', r.stdout, r.stderr[-500:], flush=True); continue
        for f in sorted(glob.glob(R + '/src/**/*.rs', recursive=True)):
            if '/test_utilities' in f or f.endswith(('/lib.rs', '/mint.rs')): continue
            r = subprocess.run([X, t, f], capture_output=True, text=True)
            if r.returncode: drop.append(os.path.basename(f) + '!'); continue
            if int(r.stderr.split()[-1]) == 0: continue
            old = open(f).read(); open(f, 'w').write(r.stdout)
            c = sh('cargo check --offline --lib', cwd=R)
            if c.returncode:
                open(f, 'w').write(old)
                for i in range(int(r.stderr.split()[-2])):  # function by function
                    r = subprocess.run([X, t, f], capture_output=True, text=True, env=dict(os.environ, EQV_ONLY=str(i)))
                    if r.returncode or int(r.stderr.split()[-1]) == 0: continue
                    old = open(f).read(); open(f, 'w').write(r.stdout)
                    if sh('cargo check --offline --lib', cwd=R).returncode: open(f, 'w').write(old); drop.append(f'{os.path.basename(f)}#{i}')
                    else: used += int(r.stderr.split()[-1])
            else: used += int(r.stderr.split()[-1])
        if not used: print(t, 'nothing to do', drop, flush=True); continue
        c = sh('cargo test --offline --lib', cwd=R)
        r = sh(f'python3 {V}/tools/eqv.py --one {t} {d}')
        print(f'== {t}: {used} sites, not compiling: {drop}', '' if c.returncode == 0 else 'TESTS FAIL', flush=True)
        sh(f'cp {d}/work/vx.rs /tmp/eqv/{t}.rs; git diff > /tmp/eqv/{t}.diff', cwd=d + '/repo')
        print(r.stdout, r.stderr[-500:], flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
