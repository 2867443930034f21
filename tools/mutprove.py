#!/usr/bin/env python3
"""mutprove.py DIR [-w N]: which surviving mutants does Verus accept? one line per mutant in DIR/proof.txt (dev tool)."""
import os, re, subprocess, sys, json, threading, queue, time
D = sys.argv[1]; N = int(sys.argv[3]) if len(sys.argv) > 3 else 2
V = '/verif'
done = set()
if os.path.exists(D + '/proof.txt'): done = {l.split()[0] for l in open(D + '/proof.txt')}
q = queue.Queue()
for f in sorted(os.listdir(D)):
    if f.endswith('.diff') and f not in done: q.put(f)
lock = threading.Lock()
def enclosing(L, n):
    for i in range(n - 1, -1, -1):
        m = re.match(r'\s*// @fn (.*)$', L[i])
        if m: return m.group(1)
        m = re.match(r'\s*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?proof fn (\w+)', L[i])
        if m: return 'lemma ' + m.group(1)
    return '?'
def work(w):
    r = f'/tmp/mp{os.getpid()}_{w}'
    subprocess.run(f'rm -rf {r}; mkdir -p {r}; cp -a /repo/rstar {r}/rstar; cp -a {V}/vx/extract/target/release/vx-extract {r}/x; cp -a {V}/vx/contracts {V}/vx/prelude {r}', shell=True)
    while True:
        try: f = q.get_nowait()
        except queue.Empty: break
        subprocess.run(f'rm -rf {r}/rstar; mkdir -p {r}/rstar; cp -a /repo/rstar/src {r}/rstar/src; patch -s -p1 -d {r} < {D}/{f}', shell=True)
        p = subprocess.run([r + '/x', '--src', r + '/rstar/src', '--contracts', r + '/contracts', '--prelude', r + '/prelude', '--out', r + '/vx.rs', '--report', r + '/vx.json'], capture_output=True, text=True)
        if p.returncode: res = 'EXTRACT ' + p.stderr.strip()[-200:].replace('\n', ' ')
        else:
            rep = json.load(open(r + '/vx.json'))
            mod = re.search(r'^\+\+\+ b/rstar/src/(.*)\.rs', open(D + '/' + f).read(), re.M).group(1).replace('/', '::').replace('::mod', '')
            try: p = subprocess.run(['verus', '--verify-module', mod, '--crate-type', 'lib', r + '/vx.rs', '--rlimit', '30', '--num-threads', '2', '--error-format=json', '--output-json'], capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: p = None
            if p is None: res = 'TIMEOUT'
            else:
                L = open(r + '/vx.rs').read().split('\n')
                items = []
                for l in p.stderr.splitlines():
                    if l.startswith('{'):
                        d = json.loads(l)
                        if d['level'] == 'error' and d['spans']:
                            s = [s for s in d['spans'] if s['is_primary']][0]
                            items.append(enclosing(L, s['line_start']) + ('~' if 'rlimit' in d['message'] else ''))
                try: ok = json.loads(p.stdout)['verification-results']
                except Exception: ok = {}
                res = ('REJECT ' if ok.get('encountered-vir-error') else 'FAIL ' if items else 'ACCEPT ') + ('lost%s ' % rep['lost'] if rep['lost'] else '') + ' ; '.join(sorted(set(items)))[:300]
        with lock: open(D + '/proof.txt', 'a').write(f + ' ' + res + '\n')
ts = [threading.Thread(target=work, args=(w,)) for w in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
