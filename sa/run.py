"""Running roots and comparing exits with expectations."""
import os
import sys
import time
import traceback
from . import build, core, loops, std, coll
from . import terms as T
from .core import Engine, St, Undecided, Budget, Panic, Undec
from .spec import Cmp, show, tshow, gen, nvar


def args_of(E, st, f):
    return [E.fresh_opaque(st, f['locals'][i], ('p', i)) for i in range(1, f['argc'] + 1)]


def leaf_hook(E, st, callee, args):
    n = callee['sdef']
    if n.startswith('vroots::wit::') and 'blocks' not in callee:
        rt = std.ret_ty(callee)
        vals = tuple(E.read(st, a[1], a[2]) if isinstance(a, tuple) and a and a[0] == 'ref' else a for a in args)
        name = n.rsplit('::', 1)[1]
        if name.startswith('ev_'):
            st = st.copy()
            st.ev = st.ev + ((name, vals),)
        return [(st, E.fresh_opaque(st, rt, ('leaf', name, vals)))]
    return None


class Runner:
    def __init__(self, prog, rep, budget=60000):
        self.p = prog
        self.rep = rep
        self.thorough = rep.tier == 'thorough'
        self.budget = budget * (4 if self.thorough else 1)
        self.t0 = time.monotonic()
        self.exact = False       # second pass: bounded, without widening
        self.soft = None         # first pass: what it could not settle

    def und(self, key, msg):
        if os.environ.get('SA_DEBUG'):
            print('EXACT' if self.exact else 'SOFT', key, msg[:int(os.environ['SA_DEBUG'])])
        if self.exact:
            return
        if self.soft is not None:
            self.soft.append((key, msg))
        else:
            self.rep.undecided(key, msg)

    def oblig(self, ok, sample=None):
        if not self.exact:
            self.rep.oblig(ok, sample)

    def two(self, body):
        """first pass: fixpoint with widening, proves. What is not proved is looked at again without widening, up to a bound:
        a mismatch found there (or in a state never widened) is a violation, the rest stays undecided."""
        nv = len(self.rep.viol)
        self.soft = []
        try:
            body()
        except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, RecursionError) as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.und('internal', '%s %s' % (type(e).__name__, e))
        soft, self.soft = self.soft, None
        if not soft:
            return
        if len(self.rep.viol) == nv:
            for self.exact in ((3, 5, 25), (12, 60, 2), (3, 5, 60)):
                try:
                    body()
                except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, RecursionError):
                    if os.environ.get('SA_DEBUG'):
                        raise
                if len(self.rep.viol) > nv:
                    break
            self.exact = False
        if len(self.rep.viol) == nv:
            for k, m in soft[:6]:
                self.rep.undecided(k, m)

    def engine(self, *hooks):
        E = Engine(self.p, std.N, self.budget)
        E.deadline = self.t0 + ((760 if self.exact else 560) if self.thorough else 560 if self.exact else 300)
        if self.exact:
            E.cut = 0
            E.widen_delay, E.max_consts, E.cap, E.sib_max = self.exact + ((1 << 60),)
            E.budget = max(self.budget, 400000)

        def call(E, st, callee, args):
            for h in hooks + (leaf_hook,):
                r = h(E, st, callee, args)
                if r is not None:
                    return r
            return None
        E.hooks['call'] = call
        return E

    def root(self, name):
        k = self.p.roots.get(name)
        return None if k is None else self.p.fns.get(k)

    def explore(self, E, name, prep=None, f=None):
        """(fn, args, exits) or None after reporting"""
        f = f or self.root(name)
        if f is None or 'blocks' not in f:
            self.rep.violation('%s:missing' % name, 'entry point %s is not in the analysed program' % name)
            return None
        st = St()
        args = args_of(E, st, f)
        if prep:
            r = prep(E, st, args)
            if r is not None:
                args = r
        try:
            ex = E.run(E.push(st, f['key'], list(args), None, None))
        except Undecided as e:
            if self.exact:
                self.done(E, name)
                return f, args, E.partial or []
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.und(name, '%s [%s]' % (e, ' < '.join('%s:%d' % (x.filename.rsplit('/', 1)[1], x.lineno) for x in reversed(tb[-4:]))))
            self.done(E, name)
            return None
        self.done(E, name)
        return f, args, ex

    def done(self, E, name):
        self.rep.fns |= {fnname(self.p.fns[k]) for k in E.fns_seen if self.p.local(self.p.fns[k])}
        self.rep.roots.append(name)
        for a, w in E.assumptions.items():
            self.rep.assume[a] = w
        c = self.rep.counts
        c['abstract_states'] = c.get('abstract_states', 0) + E.steps
        c['calls_followed'] = c.get('calls_followed', 0) + E.calls_seen
        c['loop_heads'] = c.get('loop_heads', 0) + len(E.loop_stats)


def fnname(f):
    return f['name']


def facts(E, s, limit=10):
    """readable path condition"""
    out = []
    for a, d in s.dom.items():
        if a[0] == 'sym' and a[1] == 'discr':
            if d[0][0] == d[-1][1]:
                out.append('%s is variant %d' % (tshow(a[2]), d[0][0]))
        elif a[0] == 'sym' and a[1] == 'has':
            if d[0][0] == d[-1][1]:
                out.append('%s %s key %s' % (tshow(a[2]), 'has' if d[0][0] else 'lacks', show(E, ('str', a[3]))))
        elif d not in (((0, core.ISIZE_MAX),), ((0, core.USIZE_MAX),)):
            out.append('%s in %s' % (tshow(a), ' '.join('%d..%d' % x for x in d[:4])))
    return out[:limit]


def result_parts(E, s, v):
    """('ok', x) / ('err', kind, msg) / ('val', v)"""
    v = nvar(E, s, v)
    if v[0] == 'agg' and v[1] is not None:
        t = E.p.types[v[1]]
        if t['k'] == 'adt' and t['def'].endswith('result::Result'):
            if v[2] == 0:
                return ('ok', v[3][0])
            e = v[3][0]
            return ('err', e)
    return ('val', v)


def err_kind(E, s, e):
    """variant name of an Error value's kind, or None"""
    e = nvar(E, s, e)
    if e[0] != 'agg':
        return None
    t = E.p.types[e[1]] if e[1] is not None else None
    if t is None or t.get('def') != 'json::Error':
        return None
    for f in e[3]:
        f = nvar(E, s, f) if isinstance(f, tuple) and f and f[0] in ('opq', 'agg') else f
        if isinstance(f, tuple) and f and f[0] == 'agg' and f[1] is not None and E.p.types[f[1]].get('def', '').endswith('ErrorKind'):
            return E.p.types[f[1]]['variants'][f[2]]['name']
    return None
