#!/usr/bin/env python3
"""plant.py [ID...]: confirm planted bugs in a scratch copy of /repo and write /verif/seeded/<id>/.

Each bug: edits to /repo (old text -> new text), a demonstration program, what it needs.
A bug is kept only if it builds, every stable test passes, the demo passes without and fails with it."""
import json, os, subprocess, sys, shutil, tempfile, difflib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS, COMMON
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 on the unchanged tree, nonzero with the patch
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rstar = { path = "$repo/rstar"%s }
%s
[profile.dev]
opt-level = 1
[workspace]
TOML
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
'''

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def main():
    ids = sys.argv[1:] or [b for b in BUGS]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, ids))

def one(bid):
    if True:
        b = BUGS[bid]
        scratch = tempfile.mkdtemp(prefix='plant_')
        r = os.path.join(scratch, 'repo')
        sh(f'cp -a {REPO} {r}')
        out = f'/verif/seeded/{bid}'
        os.makedirs(out, exist_ok=True)
        src = b['demo'].replace('//COMMON', COMMON)
        open(f'{out}/demo.rs', 'w').write(src)
        open(f'{out}/demo.sh', 'w').write(DEMO_SH % (', features = ["mint"]' if b.get('mint') else '', 'mint = "0.5.9"' if b.get('mint') else ''))
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
        d0 = sh(f'bash {out}/demo.sh', cwd=r)
        ok = True
        if d0.returncode:
            print(bid, 'DEMO FAILS ON UNCHANGED', d0.stderr[-1500:]); ok = False
        for f, old, new in b['edits']:
            p = os.path.join(r, 'rstar/src', f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(bid, 'EDIT MATCHES', n, f, repr(old)); ok = False; continue
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        open(f'{out}/patch.diff', 'w').write(diff)
        if ok:
            tt = sh('''export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
rm -rf target/debug/.fingerprint/rstar-*
cargo test -p rstar --all-features --no-fail-fast --offline -- --test-threads 4''', cwd=r)
            fails = [l for l in tt.stdout.splitlines() if l.endswith('FAILED') or l.endswith('failed')]
            passed = sum(1 for l in tt.stdout.splitlines() if l.endswith('... ok'))
            if tt.returncode:
                print(bid, 'TESTS', passed, fails[:5], tt.stderr[-600:]); ok = False
            d1 = sh(f'bash {out}/demo.sh', cwd=r)
            if d1.returncode == 0:
                print(bid, 'DEMO PASSES WITH BUG'); ok = False
            elif 'panicked' not in d1.stderr:
                print(bid, 'demo failed oddly', d1.stderr[-500:]); ok = False
        print(bid, 'OK' if ok else 'REJECTED')
        if not ok:
            shutil.rmtree(out)
        shutil.rmtree(scratch)
main()
