#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py  (SPEC: id, property, needs, breaks, subs=[(file, old, new)], demo=Rust main.rs body)
Builds and tests a scratch copy of /repo with the change, runs the demonstration with and without it, and keeps it under seeded/ if all is as it must be."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this input; run with cwd at the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
coffer = { path = "$repo" }
wtf-8 = { path = "$repo/wtf8", features = ["std"] }
indexmap = "1.6.1"
T
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd "$d"
cargo build -q --offline --target-dir "$d/t" 2>"$d/err" || { cat "$d/err" >&2; exit 2; }
timeout 100 "$d/t/debug/demo"
'''


def main(spec):
    s = {}
    exec(open(spec).read(), s)
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        w = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        if os.path.exists('/repo/Cargo.lock'):
            shutil.copy('/repo/Cargo.lock', w)
        out = os.path.join(d, 'out')
        os.makedirs(out)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'main.rs'), 'w').write(s['demo'])
        r = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=w, env=ENV)
        if r.returncode:
            return print(s['id'], 'REJECTED: demo fails on the unchanged tree', r.returncode)
        for f, a, b in s['subs']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(a) != 1:
                return print(s['id'], 'REJECTED: %d matches for %r in %s' % (t.count(a), a, f))
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(out, 'patch.diff')], check=True)
        try:
            subprocess.run(['bash', '/opt/vp/test.sh', os.path.join(d, 't.json')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
        got = set(json.load(open(os.path.join(d, 't.json')))['passed'])
        want = json.load(open('/opt/vp/BASELINE.json'))
        want = set(want['passed'] if isinstance(want, dict) and 'passed' in want else want.get('stable') or want.get('tests'))
        if want - got:
            return print(s['id'], 'REJECTED: tests', sorted(want - got)[:8])
        r = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=w, env=ENV, stderr=subprocess.PIPE)
        if r.returncode in (0, 2):
            return print(s['id'], 'REJECTED: demo ends with', r.returncode, r.stderr.decode()[-800:])
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(s['id'], 'KEPT demo exit', r.returncode, r.stderr.decode()[-200:].strip())
    finally:
        shutil.rmtree(d, ignore_errors=True)


for a in sys.argv[1:]:
    main(a)
