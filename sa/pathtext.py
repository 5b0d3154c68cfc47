"""Path texts (C17): the steps a text spells, and that the operation is done once with exactly those steps."""
from . import terms as T
from .core import *
from . import std, graph
from .coll import base_of, items_of, it_item, UNIT
from .machine import Machine
from .conv import reg
from .paths import deref_ty
from .spec import nvar

ROOTS = {'r_get': 'r_path_find', 'r_set': 'r_path_update', 'r_del': 'r_path_discard'}
S, B, L, F, P, Q = (reg(x) for x in 'SBLFPQ')


class PathText(Machine):
    """mode S, step text so far B, steps L; then, beside a second loop over the steps: the first step F, the others P, those still to come Q"""

    def __init__(self, lay, text):
        self.lay = lay
        self.text = text

    def init(self, E, st, args):
        st.mon[S] = ('ctl', 5)      # nothing read
        st.mon[B] = ('str', ())
        st.mon[L] = ('seq', ())
        st.mon[F] = ('none',)
        st.mon[P] = ('seq', ())
        st.mon[Q] = ('it', ())

    def need(self, E, st):
        c = st.mon[S][1]
        if c in (0, 1, 5):
            return self.text
        if c == 2 and st.mon[Q][1]:
            i = st.mon[Q][1][0]
            if i[4] != 'E' or i[3] == 'P':
                raise Undecided('part of the steps')
            return base_of(i[1])
        return None

    def item(self, B, pos):
        return cell_char(B, pos) if B == self.text else ('el', B, pos)

    def peek(self, E, st, B, pos):
        if B == self.text:
            return E.peek_stream(st, B, pos)
        return Machine.peek(self, E, st, B, pos)

    def finder(self, E, st, name, x):
        vs = [v['name'] for v in E.p.types[self.lay.fty]['variants']]
        return ('agg', self.lay.fty, vs.index(name), (x,))

    def step(self, E, st, B_, pos, more):
        if B_ == self.text:
            return Machine.step(self, E, st, B_, pos, more)
        st = st.copy()
        g = st.mon[Q][1]
        _, X, ety, p, hi, mode = g[0]
        if more:
            st.mon[('pos', B_)] = pos + 1
            self.take(st, it_item(E, st, X, ety, ('el', B_, pos), mode, self.lay.fty))
            st.mon[Q] = ('it', (('ts', X, ety, pos + 1, hi, mode),) + g[1:])
        else:
            st.mon.pop(('pos', B_), None)
            self.drain(st, g[1:])
        return [st]

    def take(self, st, v):
        if st.mon[F] == ('none',):
            st.mon[F] = v
        else:
            st.mon[P] = ('seq', st.mon[P][1] + (('e', v),))

    def drain(self, st, g):
        while g and g[0][0] == 'r':
            self.take(st, g[0][1])
            g = g[1:]
        st.mon[Q] = ('it', g)
        if not g:
            st.mon[S] = ('ctl', 3)

    def feed(self, E, st, B_, ch):
        if st.mon[S] == ('ctl', 5):
            st.mon[S] = ('ctl', 0 if ch is not None else 9)
            if ch is None:
                return [st]
        if st.mon[S] == ('ctl', 1):
            st.mon[S] = ('ctl', 0)
            out = []
            for s, b in E.branch(st, T.cmp('Eq', ch, 46)) if ch is not None else [(st, False)]:
                if b:
                    s.mon[B] = ('str', std.atoms_norm(s.mon[B][1] + (('lit', '.'),)))
                    out.append(s)
                else:
                    s.mon[B] = ('str', std.atoms_norm(s.mon[B][1] + (('lit', '\\'),)))
                    out += self.plain(E, s, ch)
            return out
        return self.plain(E, st, ch)

    def plain(self, E, st, ch):
        if ch is None:
            return self.end(E, st, True)
        out = []
        for s, b in E.branch(st, T.cmp('Eq', ch, 46)):
            if b:
                out += self.end(E, s, False)
                continue
            for s2, b2 in E.branch(s, T.cmp('Eq', ch, 92)):
                if b2:
                    s2.mon[S] = ('ctl', 1)
                else:
                    s2.mon[B] = ('str', std.atoms_norm(s2.mon[B][1] + (('ch', ch),)))
                out.append(s2)
        return out

    def end(self, E, st, last):
        """the step is complete"""
        out = []
        at = st.mon[B][1]
        for s, x in self.steps(E, st, at):
            s = s.copy()
            s.mon[B] = ('str', ())
            if x is None:
                s.mon[S] = ('ctl', 9)
                s.mon[L] = ('seq', ())
            else:
                s.mon[L] = ('seq', s.mon[L][1] + (('e', x),))
                if last:
                    s.mon[S] = ('ctl', 2)
                    g = items_of(E, s, E.seq_norm(s.mon[L][1]), None, None, 'val')
                    s.mon[L] = ('seq', ())
                    self.drain(s, g)
            out.append(s)
        return out

    def steps(self, E, st, at):
        for s, r in std.prefix(E, st, at, 35):
            if r is not None:
                w = std.known_number(E, s, E.flat(s, r), {'k': 'uint', 'bits': 64})
                if w is not None:
                    yield s, None if w is False else self.finder(E, s, 'Index', w)
                    continue
                r = E.flat(s, r)
                k = ('sym', 'parses', 'usize', r)
                E.setdom(s, k, ((0, 1),)) if k not in s.dom else None
                for s2, b in E.branch(s, k):
                    if not b:
                        yield s2, None
                        continue
                    v = ('sym', 'parsed', 'usize', r)
                    if v not in s2.dom:
                        E.setdom(s2, v, E.type_dom(next(i for i, t in enumerate(E.p.types) if t['str'] == 'usize')))
                    yield s2, self.finder(E, s2, 'Index', v)
                continue
            for s2, r2 in std.prefix(E, s, at, 92):
                yield s2, self.finder(E, s2, 'Key', ('str', at if r2 is None else r2))


class PathOps:
    """path operations are recorded, not followed; while the number of steps is open, the steps after the first are kept as a sequence"""

    def __init__(self, R, lay, exact):
        p = R.p
        self.lay, self.exact = lay, exact
        self.keys = {}
        self.app = set()
        self.new = set()
        jty = next(i for i, t in enumerate(p.types) if t.get('def') == 'json::Json')
        for name in list(ROOTS.values()) + ['r_path_find_mut']:
            f = R.root(name)
            if f is None or 'locals' not in f:
                continue
            defs = {}
            for k in graph.reach(p, [f['key']]):
                g = p.fns[k]
                sh = self.shape(p, g, jty)
                if sh and sh[0] == f['locals'][0] and g['argc'] == f['argc'] and self.muts(p, g, jty) == self.muts(p, f, jty):
                    defs[g['sdef']] = 1
            for k, g in p.fns.items():
                sh = self.shape(p, g, jty)
                if sh and g['sdef'] in defs and sh[0] == f['locals'][0]:
                    self.keys[k] = (name,) + sh[1:]
        f = R.root('r_path_append')
        if f is not None:
            defs = {p.fns[k]['sdef'] for k in graph.reach(p, [f['key']]) if self.appends(p, p.fns[k])}
            self.app = {k for k, g in p.fns.items() if g['sdef'] in defs and self.appends(p, g)}

    def muts(self, p, g, jty):
        return [p.types[t]['mut'] for t in g['locals'][1:g['argc'] + 1] if p.types[t]['k'] == 'ref' and deref_ty(p, t) == jty]

    def shape(self, p, g, jty):
        if g['crate'] != 'json' or 'locals' not in g or '{closure' in g['name']:
            return None
        ts = g['locals'][1:g['argc'] + 1]
        ps = [i for i, t in enumerate(ts) if deref_ty(p, t) == self.lay.pty]
        js = [i for i, t in enumerate(ts) if p.types[t]['k'] == 'ref' and deref_ty(p, t) == jty]
        if len(ps) != 1 or len(js) != 1 or len(ts) > 3:
            return None
        rest = [i for i in range(len(ts)) if i not in ps + js]
        return g['locals'][0], ps[0], js[0], rest[0] if rest else None

    def appends(self, p, g):
        if g['crate'] != 'json' or 'locals' not in g or g['argc'] != 2 or '{closure' in g['name']:
            return False
        a, b = g['locals'][1:3]
        t = p.types[a]
        return t['k'] == 'ref' and t['mut'] and t['elem'] == self.lay.pty

    def place(self, E, st, r):
        for _ in range(20):
            v = E.read(st, r[1], r[2])
            if not (isinstance(v, tuple) and v and v[0] == 'ref'):
                return r, v
            r = v
        raise Undecided('reference chain')

    def hook(self, E, st, c, args):
        k = c['key']
        if k in self.app and not self.exact:
            ty = c['locals'][2]
            if ty == self.lay.fty:
                x = args[1]
            else:
                return None
            r, v = self.place(E, st, args[0])
            if v[0] != 'agg':
                raise Undecided('appending to an unknown path')
            n = v[3][self.lay.ni]
            if n[0] == 'agg' and not n[3]:
                n = ('seq', (('e', x),))
            elif n[0] == 'seq':
                n = ('seq', tuple(E.seq_norm(n[1] + (('e', x),))))
            else:
                raise Undecided('appending to a path made in another way')
            fs = list(v[3])
            fs[self.lay.ni] = n
            st = st.copy()
            E.write(st, r[1], r[2], ('agg', v[1], v[2], tuple(fs)))
            if E.p.types[std.ret_ty(c)]['k'] == 'tuple':
                return [(st, UNIT)]
            return [(st, r)]
        if k not in self.keys:
            return None
        tag, pi, ji, ri = self.keys[k]
        pv = args[pi]
        if pv[0] in ('ref', 'box'):
            pv = E.read(st, pv[1], pv[2] if pv[0] == 'ref' else ())
            while isinstance(pv, tuple) and pv[0] in ('ref', 'box'):
                pv = E.read(st, pv[1], pv[2] if pv[0] == 'ref' else ())
        r, _ = self.place(E, st, args[ji])
        n = len(st.ev)
        st = st.copy()
        st.ev = st.ev + (('op', tag, r, pv, nvar(E, st, args[ri]) if ri is not None else None),)
        return [(st, E.fresh_opaque(st, std.ret_ty(c), ('uncalled', tag, (n,))))]


def steps_of(E, s, lay, pv):
    """('seq', ...) of the steps of a path value"""
    pv = nvar(E, s, pv)
    if pv[0] != 'agg':
        raise Undecided('path of unknown make')
    n = pv[3][lay.ni]
    f = pv[3][lay.fi]
    if n[0] == 'seq':
        return f, n
    out = []
    lay.steps(E, s, pv, out)
    return out[0], ('seq', tuple(('e', x) for x in out[1:]))
