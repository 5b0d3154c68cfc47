#!/usr/bin/env python3
"""Development aid: runs checks on patched scratch copies in parallel.
par.py [-p PROP,PROP] PATCH_OR_SEED_ID...   (every patch is applied to its own clone of /repo)"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = '''
import sys, os
sys.path.insert(0, %(v)r)
from sa import build, report
build.REPO, build.VERIF, build.BUILD = %(repo)r, %(w)r, %(w)r + '/.build'
report.VERIF, report.BUILD = build.VERIF, build.BUILD
sys.argv = ['check.py', %(prop)r]
exec(open(%(v)r + '/check.py').read(), {'__file__': %(v)r + '/check.py', '__name__': '__main__'})
'''


def one(job):
    name, patch, props = job
    w = tempfile.mkdtemp(prefix='par')
    out = []
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
        if patch and subprocess.run(['git', 'apply', patch], cwd=w + '/repo').returncode:
            return name + ': patch does not apply'
        for h in ('harness', 'hderive', 'witness', 'shapes', 'driver'):
            if os.path.isdir(V + '/' + h):
                shutil.copytree(V + '/' + h, w + '/' + h, ignore=shutil.ignore_patterns('target'))
                t = w + '/' + h + '/Cargo.toml'
                s = open(t).read().replace('"/repo', '"' + w + '/repo')
                open(t, 'w').write(s)
        os.makedirs(w + '/.build')
        shutil.copytree(V + '/.build/driver/release', w + '/.build/driver/release', ignore=shutil.ignore_patterns('deps', 'build', '.fingerprint', 'incremental'))
        stub = 'build.driver = lambda: %r\n' % (w + '/.build/driver/release/mirdump')
        shutil.copy(V + '/known-findings.txt', w + '/known-findings.txt')
        for p in props:
            code = (RUN % {'v': V, 'repo': w + '/repo', 'w': w, 'prop': p}).replace('sys.argv =', stub + 'sys.argv =')
            r = subprocess.run(['python3', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
            o = r.stdout
            v = [l for l in o.splitlines() if l.startswith('violation')]
            if os.environ.get('ALL'):
                print(chr(10).join(x[:200] for x in v))
            u = [l for l in o.splitlines() if l.startswith('UNDECIDED')]
            last = o.strip().splitlines()[-1][:160] if o.strip() else ''
            out.append('%s %s rc=%d %s' % (name, p, r.returncode, ('CAUGHT ' + v[0][:170]) if v else ('undecided %d ' % len(u) + (u[0][:260] if u else last))))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)


def main(a):
    props = None
    if a and a[0] == '-p':
        props = a[1].split(',')
        a = a[2:]
    if not a:
        a = sorted(os.listdir(V + '/seeded'))
    jobs = []
    for x in a:
        if x == 'clean':
            jobs.append((x, None, props))
        elif os.path.isdir(V + '/seeded/' + x):
            m = json.load(open(V + '/seeded/' + x + '/meta.json'))
            jobs.append((x, V + '/seeded/' + x + '/patch.diff', props or [m['property']]))
        else:
            jobs.append((os.path.basename(x), os.path.abspath(x), props))
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for r in concurrent.futures.as_completed([ex.submit(one, j) for j in jobs]):
            print(r.result(), flush=True)


main(sys.argv[1:])
