"""(Re)creates planted changes: python3 tools/seed.py DEFS.py [id ...]. Each definition: id, property, [(file, old, new)], needs, breaks, demo."""
import os, sys, json, shutil, subprocess, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/sc'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=SC + '/target')
def build(): return sh('cargo build --workspace --locked --offline', cwd=SC, env=ENV)
def tests():
    r = sh('cargo test --workspace --locked --offline --no-fail-fast 2>&1', cwd=SC, env=ENV)
    bad = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
    return [b for b in bad if 'rrdp_state_deserialize' not in b], r.stdout
def main():
    sp = importlib.util.spec_from_file_location('defs', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    want = sys.argv[2:]
    if os.path.exists(SC): shutil.rmtree(SC)
    subprocess.run(['cp', '-a', '/repo', SC], check=True)
    sh('git checkout -q -- .', cwd=SC)
    for d in m.SEEDS:
        if want and d['id'] not in want: continue
        o = f'{V}/seeded/{d["id"]}'
        sh('git checkout -q -- .', cwd=SC)
        build()
        os.makedirs(o, exist_ok=True)
        shutil.copy(V + '/tools/demolib.py', o + '/demolib.py')
        for n, t in d.get('files', {}).items(): open(f'{o}/{n}', 'w').write(t)
        open(o + '/demo.py', 'w').write(d['demo']); open(o + '/demo.sh', 'w').write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(o + '/demo.sh', 0o755)
        a = sh(f'timeout 280 {o}/demo.sh', cwd=SC)
        ok = True
        if a.returncode: print(d['id'], 'DEMO FAILS UNCHANGED', a.stdout[-800:], a.stderr[-800:]); ok = False
        for f, x, y in d['edits']:
            t = open(f'{SC}/{f}').read()
            if t.count(x) != 1: print(d['id'], 'edit matches', t.count(x), repr(x[:60])); ok = False
            open(f'{SC}/{f}', 'w').write(t.replace(x, y, 1))
        b = build()
        if b.returncode: print(d['id'], 'DOES NOT BUILD', b.stderr[-1500:]); ok = False
        bad, out = tests()
        if bad: print(d['id'], 'TESTS FAIL', bad); ok = False
        a = sh(f'timeout 280 {o}/demo.sh', cwd=SC)
        if a.returncode == 0: print(d['id'], 'DEMO PASSES WITH CHANGE', a.stdout[-500:]); ok = False
        open(o + '/patch.diff', 'w').write(sh('git diff', cwd=SC).stdout)
        json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
        print(d['id'], 'ok' if ok else 'NOT OK', a.stdout.strip()[-200:])
    shutil.rmtree(SC)
main()
