"""Breadth of the derives (D03) and what they reject (D04): small programs handed to the compiler's type checker. Each program is one struct (or
other item) with the derives; nothing is executed."""
import concurrent.futures
import json
import os
import re
import shutil
import tempfile
from . import build, derive

HEAD = '''#![allow(dead_code, unused, deprecated)]
use json::{FromJson, Json, JsonDecode, JsonEncode, ToJson};
use std::collections::HashMap;
use std::marker::PhantomData;
fn both<T: ToJson + FromJson>() {}
fn enc<T: ToJson>() {}
fn dec<T: FromJson>() {}
'''
SEP = '//--- control\n'


def artifacts():
    """(--extern arguments) of the library and of the attribute macro, compiled from the current tree"""
    os.makedirs(build.BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(build.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            derive.prepare(build.REPO, build.BUILD, build.VERIF)
        except (OSError, derive.NoDerive) as e:
            raise build.BuildError(str(e))
        tgt = os.path.join(build.BUILD, 't-shapes')
        shutil.rmtree(tgt, ignore_errors=True)
        rc, log = build.run(['cargo', '+stable', 'build', '--offline', '--message-format', 'json'], os.path.join(build.VERIF, 'shapes'), {
            'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0', 'RUSTFLAGS': '-Awarnings -W pub_use_of_private_extern_crate'})
        ext = {}
        for l in log.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('reason') == 'compiler-artifact' and m['target']['name'] in ('json', 'vmacro'):
                    ext[m['target']['name']] = [f for f in m['filenames'] if f.endswith(('.rlib', '.so'))][0]
        if rc or len(ext) != 2:
            raise build.BuildError(log)
        w = tempfile.mkdtemp(prefix='shapes', dir=build.BUILD)
        shutil.copytree(tgt + '/debug/deps', w + '/deps')
        for k, f in ext.items():
            shutil.copy(f, w + '/deps/' + os.path.basename(f))
            ext[k] = w + '/deps/' + os.path.basename(f)
        shutil.rmtree(tgt, ignore_errors=True)
        return w, ext


def compile_(w, ext, name, edition, src):
    """None if the program type-checks, otherwise the first error"""
    p = os.path.join(w, name.replace('/', '-') + edition + '.rs')
    with open(p, 'w') as f:
        f.write(HEAD + src)
    cmd = ['rustc', '+stable', '--crate-type', 'lib', '--crate-name', 'shape', '--edition', edition, '--emit', 'metadata', '-o', p + '.rmeta', '--error-format', 'short',
           '-L', 'dependency=' + w + '/deps'] + [x for k in sorted(ext) for x in ('--extern', '%s=%s' % (k, ext[k]))] + [p]
    rc, log = build.run(cmd, w)
    if rc == 0:
        return None
    es = [l for l in log.splitlines() if 'error' in l]
    return re.sub(r'^.*?/[^/ ]*\.rs:', '', (es or log.splitlines() or ['?'])[0])[:300]


def programs(kind):
    d = os.path.join(build.VERIF, 'shapes', kind)
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.rs'):
            with open(os.path.join(d, f)) as x:
                out.append((f[:-3], x.read()))
    return out


def run_all(jobs):
    w, ext = artifacts()
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: compile_(w, ext, *j), jobs))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def d03(R):
    rep = R.rep
    rep.level = 'other'
    ok = programs('ok') + [('control-' + n, s.split(SEP)[1]) for n, s in programs('bad')]
    jobs = [(n, '2021', s) for n, s in ok] + [(n, '2018', s) for n, s in ok if not n.startswith('control-') and '//! 2021' not in s]
    for (n, ed, s), e in zip(jobs, run_all(jobs)):
        rep.oblig(e is None, '%s (edition %s)' % (n, ed))
        if e is not None:
            rep.violation('shape:%s' % n, 'the derives do not compile for the struct %s (edition %s): %s' % (n, ed, e), s.splitlines())
    rep.counts['programs'] = len(jobs)
    rep.roots.append('%d struct definitions' % len(ok))


def d04(R):
    rep = R.rep
    rep.level = 'other'
    bad = programs('bad')
    jobs = [(n + x, '2021', p) for n, s in bad for x, p in zip(('', '-control'), s.split(SEP))]
    res = dict(zip((j[0] for j in jobs), run_all(jobs)))
    for n, s in bad:
        if res[n] is None:
            rep.violation('accepted:%s' % n, 'the derives accept the item %s' % n, s.split(SEP)[0].splitlines())
        elif res[n + '-control'] is not None:
            rep.undecided('control:%s' % n, 'the accepted variant of %s does not compile either: %s' % (n, res[n + '-control']))
        rep.oblig(res[n] is not None and res[n + '-control'] is None, '%s: %s' % (n, res[n]))
    rep.counts['programs'] = len(jobs)
    rep.roots.append('%d rejected items, each with an accepted variant' % len(bad))
