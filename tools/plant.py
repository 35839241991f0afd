#!/usr/bin/env python3
"""Develop planted bugs.  plant.py SPEC.py... : for each bug(...) in the spec files, confirm in a scratch
copy of /repo that it applies, compiles, passes the stable tests and is exposed by its demonstration, and
then write /verif/seeded/<id>/.  No check reads any of this."""
import json, os, subprocess, sys, tempfile, shutil
VERIF = '/verif'
DEMO = r'''#!/bin/bash
# Run in the repository's root: exits 0 when the behaviour described in meta.json holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here"/*.rs "$dir/src/"
cp "$here"/*.json "$dir/src/" 2>/dev/null || true
cp "$repo/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null || true
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cubing = { path = "$repo/cubing" }
cubing_core = { path = "$repo/cubing_core" }
serde_json = "1"
serde = "1"
paste = "1"
[workspace]
TOML
cd "$dir"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" CARGO_INCREMENTAL=0
cargo build -q --offline || exit 98
timeout 120 "$dir/target/debug/demo"
'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, demo_sh=None, extra=None):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, demo_sh=demo_sh, extra=extra or {}))
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in sys.argv[1:]:
        if f.endswith('.py'):
            exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in bugs:
        if only and b['id'] not in only: continue
        root = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
        repo = root + '/repo'
        try:
            print('==', b['id'], flush=True)
            sh(f'cp -a /repo {repo}')
            ok = True
            for f, old, new in b['edits']:
                s = open(f'{repo}/{f}').read()
                if s.count(old) != 1:
                    print('  EDIT MATCHES', s.count(old), 'times:', f, old[:60]); ok = False; break
                open(f'{repo}/{f}', 'w').write(s.replace(old, new))
            if not ok: continue
            rc, diff = sh('git diff', cwd=repo)
            env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=repo + '/target')
            log = root + '/cargo.log'
            rc, out = sh(f'cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {log} 2>&1', cwd=repo, env=env)
            sh(f'python3 /opt/vp/results.py {root}/out.json cargo:{log}', cwd=repo)
            res = json.load(open(root + '/out.json'))
            passed = set(res.get('passed', res.get('pass', [])))
            missing = sorted(stable - passed)
            if missing:
                print('  TESTS FAIL:', missing[:6], open(log).read()[-1500:]); continue
            d = f'{VERIF}/seeded/{b["id"]}'
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(b['demo_sh'] or DEMO); os.chmod(d + '/demo.sh', 0o755)
            if b['demo'] is not None: open(d + '/main.rs', 'w').write(b['demo'])
            for n, t in b['extra'].items(): open(f'{d}/{n}', 'w').write(t)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            rc1, o1 = sh(f'bash {d}/demo.sh', cwd=repo)
            rc0, o0 = sh(f'bash {d}/demo.sh', cwd='/repo')
            good = rc0 == 0 and rc1 not in (0, 98, 99)
            print('  demo: unchanged', rc0, 'patched', rc1, 'OK' if good else 'BAD')
            if not good:
                print(o0[-800:], '\n--patched--\n', o1[-800:]); shutil.rmtree(d)
            else:
                print('   ', [l for l in o1.splitlines() if 'panicked' in l or 'assert' in l or 'left' in l][:2])
        finally:
            shutil.rmtree(root, ignore_errors=True)
main()
