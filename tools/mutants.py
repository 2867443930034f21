#!/usr/bin/env python3
"""mutants.py OUT [-w N]: mechanical mutants of /repo that compile and pass the tests, as patches in OUT (dev tool)."""
import os, re, subprocess, sys, threading, queue, json
OUT = sys.argv[1]; N = int(sys.argv[3]) if len(sys.argv) > 3 else 3
SRC = '/repo/rstar/src'
os.makedirs(OUT, exist_ok=True)
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![-=<\w])<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'(?<= )<(?= )', '>'), (r'==', '!='), (r'!=', '=='),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'&&', '||'), (r'\|\|(?= \w)', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\bmin_point\b', 'max_point'), (r'\bmax_point\b', 'min_point'), (r'\blower\b', 'upper'), (r'\bupper\b', 'lower'),
       (r'(?<=[ (])!(?=\w)', ''), (r'\bif (?!let)([^{]+)\{', r'if !(\1) {'), (r'\bif (?!let)([^{]+)\{', r'if false && (\1) {'), (r'\bif (?!let)([^{]+)\{', r'if true || (\1) {'),
       (r'\+= ', '-= '), (r'-= ', '+= '), (r'\bMIN_SIZE\b', 'MAX_SIZE'), (r'\bMAX_SIZE\b', 'MIN_SIZE'), (r'\.first\b', '.last'), (r'\.last\(\)', '.first()'), (r'\.0\b', '.1'), (r'\.1\b', '.0'),
       (r'contains_envelope', 'intersects'), (r'\bintersects\b', 'contains_envelope'), (r'\.contains_point\(', '.intersects('), (r'distance_2_if_less_or_equal', 'distance_2_if_less'), (r'is_none_or', 'is_some_and'),
       (r'\.take\(1\)', '.take(2)'), (r'Some\((\w+)\)$', 'None'), (r'swap_remove', 'remove'), (r'min_inline', 'max_inline'), (r'max_inline', 'min_inline'), (r'\bdistance_2\b', 'min_max_dist_2'), (r'\bmin_max_dist_2\b', 'distance_2'),
       (r'\bbreak\b', 'continue'), (r'\bself\.(\w+)\.clone\(\)', r'other.\1.clone()'), (r'Ordering::Less', 'Ordering::Greater'), (r'\.rev\(\)', ''), (r'->\s*', '-> ')]
muts = []
for d, _, fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
        p = os.path.join(d, f)
        if not f.endswith('.rs') or f in ('test_utilities.rs', 'lib.rs'): continue
        ls = open(p).read().split('\n')
        end = next((i for i, l in enumerate(ls) if '#[cfg(test)]' in l), len(ls))
        for i, l in enumerate(ls[:end]):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('impl') or 'fn ' in s and s.endswith(('{', '(', '>')) : continue
            seen = {l}
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n not in seen: seen.add(n); muts.append((p, i, n))
            if s.endswith(';') and not s.startswith(('let', 'type', 'const', 'pub', 'return')) and not s.startswith('}'):
                muts.append((p, i, re.match(r'\s*', l).group(0) + '// removed'))
print(len(muts), 'candidates', flush=True)
q = queue.Queue()
for k, m in enumerate(muts): q.put((k, m))
lock = threading.Lock(); stats = {}
def work(w):
    r = f'/tmp/mut/w{w}'
    subprocess.run(f'rm -rf {r}; mkdir -p /tmp/mut; cp -a /repo {r}; rm -rf {r}/target', shell=True)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{r}/target', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='0', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    def lim():
        import resource; resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    def sh(c, t):
        p = subprocess.Popen(c, shell=True, cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=lim)
        try: return p.wait(t)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait(); return -1
    sh('cargo test -p rstar --all-features --offline --no-run', 600)
    while True:
        try: k, (p, i, n) = q.get_nowait()
        except queue.Empty: break
        t = p.replace('/repo', r)
        old = open(t).read(); ls = old.split('\n'); ls[i] = n
        open(t, 'w').write('\n'.join(ls))
        if sh('cargo build -p rstar --offline && cargo test -p rstar --all-features --offline --no-run', 120): res = 'nocompile'
        elif sh('cargo test -p rstar --all-features --offline --lib -- --test-threads 2', 60): res = 'killed'
        elif sh('cargo test -p rstar --all-features --offline --doc', 120): res = 'killed'
        else:
            res = 'survived'
            d = subprocess.run('git diff', shell=True, cwd=r, capture_output=True, text=True).stdout
            open(f'{OUT}/m{k:04d}.diff', 'w').write(d)
        with lock:
            stats[res] = stats.get(res, 0) + 1
            if sum(stats.values()) % 50 == 0: print(stats, flush=True)
        open(t, 'w').write(old)
    subprocess.run(f'rm -rf {r}', shell=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stats, 'DONE', flush=True)
