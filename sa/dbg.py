import sys, time, traceback
from . import build, core, loops, std, coll
from .core import *
def mk(E, f):
    st = St()
    args = []
    for i in range(1, f['argc'] + 1):
        args.append(E.fresh_opaque(st, f['locals'][i], ('p', i)))
    s = E.push(st, f['key'], args, None, None)
    return s
def hook(E, st, callee, args):
    n = callee['sdef']
    if n.startswith('vroots::wit::') and 'blocks' not in callee:
        rt = std.ret_ty(callee)
        vals = tuple(E_read(E, st, a) for a in args)
        return [(st, E.fresh_opaque(st, rt, ('leaf', n.rsplit('::', 1)[1], vals)))]
    return None
def E_read(E, st, v):
    if isinstance(v, tuple) and v and v[0] == 'ref':
        return E.read(st, v[1], v[2])
    return v
def go(prog, name, verbose=1, budget=40000):
    E = Engine(prog, std.N, budget)
    E.hooks['call'] = hook
    k = [k for k, f in prog.fns.items() if f['name'].endswith('::' + name)]
    f = prog.fns[k[0]]
    t = time.time()
    try:
        ex = E.run(mk(E, f))
    except Undecided as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        print('%-14s UNDECIDED %s  [%s]' % (name, e, ' < '.join('%s:%d' % (x.filename.rsplit('/', 1)[1], x.lineno) for x in reversed(tb[-4:]))))
        return
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        print('%-14s CRASH %s %s [%s]' % (name, type(e).__name__, str(e)[:200], ' < '.join('%s:%d' % (x.filename.rsplit('/', 1)[1], x.lineno) for x in reversed(tb[-5:]))))
        return
    print('%-14s exits %d steps %d %.2fs' % (name, len(ex), E.steps, time.time() - t))
    if verbose > 1:
        for s, v in ex:
            print('   ->', v.why if isinstance(v, Panic) else str(v)[:300])
            if verbose > 2:
                print('        heap', {c: x for c, x in s.heap.items()})
                print('        dom', {c: x for c, x in s.dom.items()})
                print('        streams', s.streams)
                print('        notes', s.notes())
    return E, ex
if __name__ == '__main__':
    prog = build.load()
    a = sys.argv[1:]
    v = 1
    if a and a[0].startswith('-v'):
        v = len(a[0]); a = a[1:]
    names = a or [k.rsplit('::',1)[-1] for k in prog.roots]
    for n in names:
        go(prog, n, v)
