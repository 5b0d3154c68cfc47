"""Builds the MIR driver and dumps the monomorphic MIR of everything reachable from the harness roots."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
REPO = '/repo'


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.pop('RUSTC_WRAPPER', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def sysroot():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], VERIF)
    if rc:
        raise BuildError('nightly toolchain: ' + out)
    return out.strip().splitlines()[-1]


def files(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(p, recursive=True))
    return [f for f in out if os.path.isfile(f)]


def digest(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(x.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def repo_files():
    fs = []
    for d, ds, ns in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        fs += [os.path.join(d, n) for n in sorted(ns) if n.endswith(('.rs', '.toml', '.lock'))]
    return fs


def driver():
    src = files(VERIF + '/driver/src/*.rs', VERIF + '/driver/Cargo.toml')
    h = digest(src)
    out = os.path.join(BUILD, 'driver', 'release', 'mirdump')
    stamp = os.path.join(BUILD, 'driver.stamp')
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    rc, log = run(['cargo', '+nightly', 'build', '--offline', '--release', '--target-dir', BUILD + '/driver'], VERIF + '/driver')
    if rc:
        raise BuildError('driver build failed\n' + log)
    with open(stamp, 'w') as f:
        f.write(h)
    return out


WRAP = '''#!/bin/sh
R="$1"; shift
case " $* " in *" --crate-name vroots "*) ;; *) exec "$R" "$@";; esac
export LD_LIBRARY_PATH=%(sr)s/lib
exec %(drv)s --sysroot %(sr)s "$@"
'''


def dump(harness='harness', fresh=False):
    """path of the JSON dump for the current /repo tree; raises BuildError if it does not compile"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        hd = os.path.join(VERIF, harness)
        if harness == 'hderive':
            from . import derive
            try:
                derive.prepare(REPO, BUILD, VERIF)
            except (OSError, derive.NoDerive) as e:
                raise BuildError(str(e))
        h = digest(repo_files() + files(hd + '/src/**/*.rs', hd + '/Cargo.toml', hd + '/overrides.txt', VERIF + '/driver/src/*.rs'))
        out = os.path.join(BUILD, 'dump-%s-%s.json' % (harness, h))
        if os.path.exists(out) and not fresh:
            return out
        sr = sysroot()
        wrap = os.path.join(BUILD, 'wrap.sh')
        with open(wrap, 'w') as f:
            f.write(WRAP % {'sr': sr, 'drv': drv})
        os.chmod(wrap, 0o755)
        tgt = os.path.join(BUILD, 't-' + harness)
        # never trust time stamps: the analysed crates are always compiled again
        shutil.rmtree(tgt, ignore_errors=True)
        for old in glob.glob(os.path.join(BUILD, 'dump-%s-*.json' % harness)):
            os.unlink(old)
        rc, log = run(['cargo', '+nightly', 'check', '--offline'], hd, {
            'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0',
            'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings -W pub_use_of_private_extern_crate',
            'MIRDUMP_OUT': out + '.tmp', 'MIRDUMP_LEAF': hd + '/overrides.txt', 'RUSTC_WORKSPACE_WRAPPER': wrap})
        if rc or not os.path.exists(out + '.tmp'):
            raise BuildError(log)
        os.rename(out + '.tmp', out)
        return out


def load(harness='harness'):
    from .core import Program
    with open(dump(harness)) as f:
        return Program(json.load(f))


if __name__ == '__main__':
    try:
        print(dump(*(sys.argv[1:] or ['harness'])))
    except BuildError as e:
        print(e)
        sys.exit(2)
