#!/usr/bin/env python3
"""mkseed.py SPEC.py : make /verif/seeded/<id>/ from a specification (id, property, needs, breaks, edits, demo)."""
import sys, os, subprocess, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
WT = '/tmp/seedwt'
def sh(*a, **k): return subprocess.run(a, check=True, text=True, capture_output=True, **k).stdout
if not os.path.isdir(WT):
    sh('git', '-C', '/repo', 'worktree', 'add', '--detach', WT, 'HEAD')
sh('git', '-C', WT, 'checkout', '-q', '--detach', sh('git', '-C', '/repo', 'rev-parse', 'HEAD').strip())
sh('git', '-C', WT, 'checkout', '-q', '--', '.')
only = set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    for f, a, b in s['edits']:
        t = open(f'{WT}/{f}').read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(f'{WT}/{f}', 'w').write(t.replace(a, b))
    d = f'/verif/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(sh('git', '-C', WT, 'diff'))
    sh('git', '-C', WT, 'checkout', '-q', '--', '.')
    open(f'{d}/meta.json', 'w').write(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
    open(f'{d}/demo.rs', 'w').write(s['demo'].lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -r -- "$work"' EXIT
mkdir "$work/src"; cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
symb_anafis = { path = "$repo", features = ["parallel"] }
[workspace]
EOF
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q || exit 2
timeout 120 "$work/target/debug/demo"
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    print(s['id'])
