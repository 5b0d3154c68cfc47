#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from /repo's current source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import build, checks, report          # noqa: E402
from sa.run import Runner                     # noqa: E402


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    rep = report.Report(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    fn, rep.rule = checks.CHECKS[prop][:2]
    try:
        h = checks.CHECKS[prop][2] if len(checks.CHECKS[prop]) > 2 else 'harness'
        prog = build.load(h) if h else None
    except build.BuildError as e:
        rep.violation('build', 'the library and the roots that use its interface do not compile together', str(e).splitlines()[-30:])
        return rep.finish()
    global report_
    report_ = rep
    try:
        fn(Runner(prog, rep))
    except build.BuildError as e:
        rep.violation('build', 'the library does not compile', str(e).splitlines()[-30:])
    return rep.finish()


report_ = None
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()), daemon=True)
    t.start()
    t.join(840)
    if t.is_alive() and report_ is not None:
        report_.undecided('time', 'the analysis did not end in 840 s')
        rc = [report_.finish()]
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
