#!/usr/bin/env python3
"""Development aid: one.py PATCH PROP: applies a patch to a scratch clone and runs one check there, verbosely (SA_DEBUG honoured)."""
import os
import sys
import subprocess
import tempfile
import shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
w = tempfile.mkdtemp(prefix='one')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
    subprocess.run(['git', 'apply', os.path.abspath(sys.argv[1])], cwd=w + '/repo', check=True)
    for h in ('harness', 'hderive', 'witness', 'shapes', 'driver'):
        if os.path.isdir(V + '/' + h):
            shutil.copytree(V + '/' + h, w + '/' + h, ignore=shutil.ignore_patterns('target'))
            t = w + '/' + h + '/Cargo.toml'
            s = open(t).read().replace('"/repo', '"' + w + '/repo')
            open(t, 'w').write(s)
    shutil.copy(V + '/known-findings.txt', w + '/known-findings.txt')
    os.makedirs(w + '/.build')
    from sa import build, report
    build.REPO, build.VERIF, build.BUILD = w + '/repo', w, w + '/.build'
    report.VERIF, report.BUILD = w, w + '/.build'
    d = V + '/.build/driver/release/mirdump'
    build.driver = lambda: d
    sys.argv = ['check.py'] + sys.argv[2:]
    code = compile(open(V + '/check.py').read(), 'check.py', 'exec')
    try:
        exec(code, {'__file__': V + '/check.py', '__name__': '__main__'})
    finally:
        sys.stdout.flush()
finally:
    shutil.rmtree(w, ignore_errors=True)
