#!/usr/bin/env python3
"""Makes and validates planted bugs from tools/bugs.py: seed.py ID...  (scratch copies only)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from bugs import BUGS  # noqa: E402

DEMO = '''#!/bin/bash
# builds main.rs (beside this script) against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$D/main.rs" "$S/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\njson = { path = "%s" }\\n%s[workspace]\\n' "$R" "${EXTRA_DEPS:-}" > "$S/Cargo.toml"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" RUSTC_WRAPPER=
export RUSTFLAGS="-W pub_use_of_private_extern_crate -Awarnings"
cd "$S" && cargo build --offline -q || exit 3
timeout 60 "$S/target/debug/demo"
'''
TARGET = '/tmp/seedtarget%s' % os.environ.get('W', '')


def sh(cmd, cwd, **env):
    e = dict(os.environ)
    e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True)


def main(ids):
    for b in BUGS:
        if ids and b['id'] not in ids:
            continue
        if not ids and os.path.exists(os.path.join(V, 'seeded', b['id'], 'meta.json')):
            continue
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/main.rs', 'w') as f:
            f.write(b['demo'].lstrip())
        with open(d + '/demo.sh', 'w') as f:
            f.write(b.get('demo_sh', DEMO))
        os.chmod(d + '/demo.sh', 0o755)
        w = tempfile.mkdtemp(prefix='seed')
        r = w + '/repo'
        sh('git clone -q /repo %s' % r, '/')
        ok = True
        for ed in b['edits']:
            fn, old, new = ed if len(ed) == 3 else ('src/lib.rs',) + ed
            s = open(r + '/' + fn).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60])
                ok = False
                break
            open(r + '/' + fn, 'w').write(s.replace(old, new))
        if ok:
            diff = sh('git diff', r).stdout
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            t = sh('cargo test -p json -p json_derive -p json_quote -p json_parse --offline -q --lib --tests 2>&1 | grep -E "^test result|error|FAILED|failed" | head', r,
                   CARGO_TARGET_DIR=TARGET, RUSTFLAGS='-W pub_use_of_private_extern_crate -Awarnings')
            bad = sh('bash %s/demo.sh' % d, r)
            sh('git checkout -q -- .', r)
            good = sh('bash %s/demo.sh' % d, r)
            fails = [l for l in t.stdout.splitlines() if 'FAILED' in l or 'error' in l or ' 0 failed' not in l and 'test result' in l]
            good_s = 'ok' if good.returncode == 0 else 'BROKEN(%d) %s' % (good.returncode, (good.stdout + good.stderr)[-300:])
            bad_s = 'fails(%d)' % bad.returncode if bad.returncode else 'NOT FAILING'
            if bad.returncode == 3:
                bad_s = 'DOES NOT BUILD ' + bad.stderr[-400:]
            print('%-28s tests %s | demo clean: %s patched: %s' % (b['id'], 'pass' if not fails else 'FAIL ' + str(fails[:3]), good_s, bad_s), flush=True)
        shutil.rmtree(w)


main(sys.argv[1:])
