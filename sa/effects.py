"""Purity (C25): unsafe code, static data, ambient inputs, thread safety. Looks at every body of the library and at the expansions
of its macros and derives in the witness crate, generic as written; nothing is executed."""
import glob
import json
import os
import re
import shutil
from . import build

WRAP = '''#!/bin/sh
R="$1"; shift
case " $* " in *" --crate-name json "*|*" --crate-name witness "*)
export LD_LIBRARY_PATH=%(sr)s/lib
exec %(drv)s --sysroot %(sr)s "$@" ;;
esac
exec "$R" "$@"
'''

# what a result may not depend on
AMBIENT = [
    ('std::time::Instant', 'the clock'), ('std::time::SystemTime', 'the clock'), ('std::env::', 'the environment'), ('std::fs::', 'files'), ('std::net::', 'the network'),
    ('std::os::', 'the system'), ('std::process::', 'the process'), ('std::io::', 'input or output'), ('std::thread::', 'threads'),
    ('std::thread::LocalKey', 'thread-local state'), ('std::hash::RandomState', 'random numbers'), ('std::collections::hash_map::RandomState', 'random numbers'),
    ('std::hash::random', 'random numbers'), ('std::hash::BuildHasher', 'random numbers'),
    ('std::fmt::Pointer', 'addresses'), ('std::ptr::', 'addresses'), ('std::alloc::', 'the allocator'), ('std::intrinsics::', 'intrinsics'),
    ('std::arch::', 'the processor'), ('std::backtrace::', 'the stack'), ('std::sync::mpsc', 'threads'), ('std::random::', 'random numbers'),
]
# addresses compared but not observed otherwise, or plain data
ALLOWED = re.compile(r'^std::(io::Error|process::Termination|ptr::(eq|addr_eq|drop_in_place)|intrinsics::(discriminant_value|size_of)|alloc::(Global|exchange_malloc|box_free)|thread::Result)')
CAST = re.compile(r'PointerExpose|PointerWithExposed')


def norm(n):
    return re.sub(r'\b(core|alloc)::', 'std::', n)


def ambient(name):
    n = norm(name)
    if n.startswith('std::fmt::rt::') and n.endswith('new_pointer'):
        return 'addresses'
    m = re.match(r'^<(.*) as (.*?)>::\w+$', n)
    for x in ([n] + list(m.groups()) if m else [n]):
        x = x.lstrip('&').replace('mut ', '')
        if ALLOWED.match(x):
            continue
        for p, what in AMBIENT:
            if what and x.startswith(p):
                return what
    return None


def rel(span):
    return span.split('/repo/', 1)[-1] if '/repo/' in span else span


def collect():
    """(dumps by crate, compiler messages) of the witness crate built from the current tree"""
    os.makedirs(build.BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(build.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, sr = build.driver(), build.sysroot()
        tgt, out = os.path.join(build.BUILD, 't-witness'), os.path.join(build.BUILD, 'effects')
        for d in (tgt, out):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out)
        wrap = os.path.join(build.BUILD, 'wrap-effects.sh')
        with open(wrap, 'w') as f:
            f.write(WRAP % {'sr': sr, 'drv': drv})
        os.chmod(wrap, 0o755)
        wd = os.path.join(build.VERIF, 'witness')
        rc, log = build.run(['cargo', '+nightly', 'check', '--offline', '--message-format', 'json'], wd, {
            'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0', 'RUSTC_WRAPPER': wrap, 'EFFECTS_OUT': out,
            'RUSTFLAGS': '-Zmir-opt-level=0 -Awarnings --force-warn unsafe_code -W pub_use_of_private_extern_crate'})
        msgs = []
        for l in log.splitlines():
            if l.startswith('{'):
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-message':
                    msgs.append((m['target']['name'], m['message']))
        dumps = {}
        for p in glob.glob(out + '/*.json'):
            with open(p) as f:
                dumps[os.path.basename(p)[:-5]] = json.load(f)
        shutil.rmtree(tgt, ignore_errors=True)
        return rc, log, dumps, msgs


def where(m):
    sp = [s for s in m['spans'] if s.get('is_primary')] or m['spans']
    return '%s:%d' % (rel(sp[0]['file_name']), sp[0]['line_start']) if sp else '?'


def c25(R):
    rep = R.rep
    rc, log, dumps, msgs = collect()
    errs = [(t, m) for t, m in msgs if m['level'] == 'error' and m['spans']]
    lint = [(t, m) for t, m in msgs if (m.get('code') or {}).get('code') == 'unsafe_code']
    for t, m in lint:
        rep.violation('unsafe:%s' % t, 'unsafe code at %s: %s' % (where(m), m['message']))
    rep.oblig(not lint, 'no unsafe block, function, implementation or attribute in the library, its derive crates and their expansions')
    for t, m in errs:
        code = (m.get('code') or {}).get('code')
        if t == 'witness' and code == 'E0277' and 'between threads' in m['message'] + (m.get('rendered') or ''):
            rep.violation('threads', 'a value cannot be sent to or shared with another thread: %s' % m['message'], (m.get('rendered') or '').splitlines())
        elif t == 'witness':
            rep.violation('witness', 'the witness program does not compile: %s at %s' % (m['message'], where(m)))
    if rc and not errs:
        rep.violation('build', 'the witness crate does not build', log.splitlines()[-20:])
        return
    rep.oblig(not any(t == 'witness' for t, _ in errs), 'Json, Path, Finder, Error, ErrorKind are Send and Sync')
    if 'json' not in dumps:
        rep.violation('anchor', 'the library was not analysed', log.splitlines()[-20:])
        return
    bodies = 0
    for crate, items in sorted(dumps.items()):
        names = set()
        for it in items:
            names.add(it['name'])
            if it['kind'] == 'Static':
                rep.counts['statics'] = rep.counts.get('statics', 0) + 1
                bad = it['cell'] or 'mut ' in it['kind']
                if bad:
                    rep.violation('static:' + it['name'], 'static %s of type %s at %s can change' % (it['name'], it['ty'], rel(it['span'])))
                rep.oblig(not bad, 'static %s' % it['name'])
            if not it['blocks']:
                continue
            bodies += 1
            rep.fns.add(it['name'])
            ok = True
            for name, span, own in it['calls']:
                rep.counts['call_sites'] = rep.counts.get('call_sites', 0) + 1
                w = ambient(name)
                if w:
                    ok = False
                    rep.violation('ambient:%s:%s' % (it['name'], name), '%s uses %s (%s) at %s' % (it['name'], name, w, rel(span)))
            for name, kind, span in it['statics']:
                rep.counts['static_uses'] = rep.counts.get('static_uses', 0) + 1
                if kind == 'thread':
                    ok = False
                    rep.violation('thread:%s' % it['name'], '%s uses the thread-local %s at %s' % (it['name'], name, rel(span)))
                elif name.split('::')[0] not in dumps and name not in names:
                    ok = False
                    rep.violation('static-use:%s:%s' % (it['name'], name), '%s uses the static %s of another crate at %s' % (it['name'], name, rel(span)))
            for kind, ty, span in it['casts']:
                if CAST.search(kind):
                    ok = False
                    rep.violation('cast:%s' % it['name'], '%s makes a number out of an address (%s to %s) at %s' % (it['name'], kind, ty, rel(span)))
            rep.oblig(ok, it['name'])
    rep.counts['bodies'] = bodies
    for need in ('json::Json::parse', 'json::encode'):
        if not any(it['name'] == need or it['name'].endswith(need.split('json', 1)[1]) for it in dumps['json']):
            rep.violation('anchor', '%s is not among the analysed bodies' % need)
    rep.roots.append('every body of crate json; expansions in crate witness')
