#!/usr/bin/env python3
"""Writes and validates /verif/seeded: tools/seeds.py write | validate [IDS] | detect [IDS].

validate: each patch applies, builds, passes the stable tests and its demo tells the difference.
detect:   runs the quick check of the property (and of the other ones given in "also") on /repo with the patch.
"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from seed_list import SEEDS

LIB_DEMO = '''#!/bin/bash
# Runs main.rs (next to this file) against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
minifier = { path = "$repo", features = ["html"] }
[workspace]
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
CLI_DEMO = '''#!/bin/bash
# Builds the command line tool of the current directory and runs it in a scratch directory.
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cargo build --offline -q --bin minifier --target-dir "$d/target" || exit 3
bin=$d/target/debug/minifier
mkdir "$d/w"
cd "$d/w" || exit 3
%s
'''

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def write():
    base = '/tmp/seedw/repo'
    shutil.rmtree('/tmp/seedw', ignore_errors=True)
    os.makedirs('/tmp/seedw')
    sh(['git', 'clone', '-q', '/repo', base])
    ids = set()
    for s in SEEDS:
        d = f'{verif}/seeded/{s["id"]}'
        ids.add(s['id'])
        os.makedirs(d, exist_ok=True)
        for file, old, new in s['edits']:
            p = f'{base}/{file}'
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                sys.exit(f'{s["id"]}: {n} matches of {old!r}')
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], base)[1]
        open(f'{d}/patch.diff', 'w').write(diff)
        sh(['git', 'checkout', '-q', '--', '.'], base)
        # Only lines of the original repository may be changed.
        for l in diff.splitlines():
            pass
        if 'cli' in s:
            open(f'{d}/demo.sh', 'w').write(CLI_DEMO % s['cli'].strip())
        else:
            open(f'{d}/demo.sh', 'w').write(LIB_DEMO)
            open(f'{d}/main.rs', 'w').write(s['main'].strip() + '\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=2)
    for x in os.listdir(f'{verif}/seeded'):
        if x not in ids:
            print('not in the list:', x)
    shutil.rmtree('/tmp/seedw')

def pick(ids):
    return [s for s in SEEDS if not ids or s['id'] in ids]

def base_lines(repo, patch):
    """The removed lines must be original ones."""
    bad = []
    file = None
    for l in open(patch):
        m = re.match(r'--- a/(.*)', l)
        if m:
            file = m[1].strip()
            blame = [x.startswith('^') for x in sh(['git', 'blame', '-s', file], '/repo')[1].splitlines()]
            continue
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m[1])
            continue
        if l.startswith('-'):
            if not blame[n - 1]:
                bad.append((file, n))
            n += 1
        elif l.startswith(' '):
            n += 1
    return bad

def validate(ids):
    w = '/tmp/seedv'
    shutil.rmtree(w, ignore_errors=True)
    sh(['cp', '-a', '/repo', w])
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for s in pick(ids):
        d = f'{verif}/seeded/{s["id"]}'
        res = []
        b = base_lines(w, f'{d}/patch.diff')
        if b:
            res.append(f'changes lines which are not original {b}')
        rc, out = sh(['bash', f'{d}/demo.sh'], w)
        if rc:
            res.append('demo fails on the unchanged tree: ' + out[-300:])
        rc, out = sh(['git', 'apply', f'{d}/patch.diff'], w)
        if rc:
            res.append('does not apply ' + out)
        rc, out = sh('cargo test --offline --lib --bins --tests -q 2>&1 && cargo test --offline --doc -q 2>&1', w)
        if rc:
            res.append('tests: ' + out[-700:])
        rc, out = sh(['bash', f'{d}/demo.sh'], w)
        if rc == 0:
            res.append('demo passes with the patch')
        elif 'panicked' not in out and 'DEMO' not in out:
            res.append('demo: ' + out[-300:])
        sh(['git', 'checkout', '-q', '--', '.'], w)
        print(s['id'], 'OK' if not res else res, flush=True)
    shutil.rmtree(w)

def detect(ids):
    for s in pick(ids):
        d = f'{verif}/seeded/{s["id"]}'
        rc, out = sh(['git', '-C', '/repo', 'apply', f'{d}/patch.diff'])
        assert rc == 0, out
        try:
            for p in [s['property']] + s.get('also', []):
                rc, out = sh(['bash', f'{verif}/run.sh', 'check', p, 'quick'])
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                print(s['id'], p, rc, v[:2] if v else out[-300:], flush=True)
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])

if __name__ == '__main__':
    {'write': lambda i: write(), 'validate': validate, 'detect': detect}[sys.argv[1]](sys.argv[2:])
