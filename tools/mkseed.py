#!/usr/bin/env python3
"""mkseed.py ID PROPERTY : turn the working-tree change of a scratch copy (/tmp/seedrepo) into /verif/seeded/ID,
with /tmp/seed_main.rs as the demonstration program. Confirms: the patch applies, builds, passes the stable
tests; the demonstration passes without it and fails with it."""
import json, os, subprocess, sys
DEMO = '''#!/bin/bash
# run with cwd = the repository: exits 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.85.0
d=$(mktemp -d /tmp/demo.XXXXXX)
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
measured = { path = "$repo/core", features = ["lasso", "indexmap", "phf"] }
measured-process = { path = "$repo/process" }
measured-tokio = { path = "$repo/tokio", features = ["net"] }
measured-prometheus-protobuf = { path = "$repo/prometheus-proto" }
bytes = "*"
tokio = { version = "*", features = ["full"] }
EOF
cd "$d"
RUSTFLAGS="--cfg=tokio_unstable -Awarnings" CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline 2>&1 | tail -n 30
rc=${PIPESTATUS[0]}
case "$d" in /tmp/demo.*) rm -rf "$d";; esac
exit $rc
'''


def main():
    sid, prop = sys.argv[1:3]
    needs, breaks = sys.argv[3], sys.argv[4]
    S = '/tmp/seedrepo'
    d = os.environ.get('SEED_OUT', '/verif/seeded') + '/' + sid
    os.makedirs(d, exist_ok=True)
    patch = subprocess.run(['git', '-C', S, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    assert patch, 'no change'
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(open('/tmp/seed_main.rs').read())
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd /tmp/seedrepo; export CARGO_TARGET_DIR=/tmp/seedrepo/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test |^error|panicked" | grep -v "\\.\\.\\. ok" | head -20'], cwd=S, stdout=subprocess.PIPE, text=True)
    print('tests not ok with the patch:', r.stdout)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('demo on /repo:', a.returncode, a.stdout[-600:])
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('demo on patched:', b.returncode, b.stdout[-600:])
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'])


main()
