"""Conversions between values and Rust types (C19-C21)."""
from . import terms as T
from .terms import decide, domain
from .core import *
from . import std, coll, loops
from .coll import peek_el, mat, entry, map_of
from .machine import Machine
from .single import Ops
from .spec import nvar, Cmp


def reg(n):
    return ('reg', n)


def leaf(name, *vs):
    return ('leaf', name, tuple(vs))


def fork_result(E, s, ty, term, oks, errs):
    """fork on the variant of an opaque Result of a leaf function: (state, is_ok)"""
    v = E.fresh_opaque(s, ty, term)
    d = E.discr_of(s, v)
    if d not in s.dom:
        E.setdom(s, d, ((0, 1),))
    for s2, i in E.split(s, d, [((0, 0),), ((1, 1),)]):
        x = E.expand(s2, v, i)
        yield s2, i == 0, x[3][0]


def leaf_ty(E, name):
    c = E.p.__dict__.setdefault('_leafty', {})
    if name not in c:
        for f in E.p.fns.values():
            if f['sdef'] == 'vroots::wit::' + name:
                c[name] = std.ret_ty(f)
    return c[name]


class SeqConv(Machine):
    """one stream of elements, registers R (accumulated) and F (first failure)"""

    def __init__(self, B, start, step, done):
        self.B = B
        self.start = start
        self.stepf = step
        self.done = done

    def init(self, E, st, args):
        st.mon[reg('R')] = self.start
        st.mon[reg('S')] = ('ctl', 0)
        st.mon[reg('F')] = ('none',)

    def need(self, E, st):
        return self.B if st.mon[reg('S')] == ('ctl', 0) else None

    def feed(self, E, st, B, el):
        if el is None:
            st.mon[reg('S')] = ('ctl', 1)
            return [st]
        out = []
        for s, ok, v in self.stepf(E, st, el, st.mon[reg('R')]):
            s = s.copy()
            if ok:
                s.mon[reg('R')] = v
            else:
                s.mon[reg('S')] = ('ctl', 2)
                s.mon[reg('F')] = v
            out.append(s)
        return out

    def expect(self, E, st):
        if st.mon[reg('S')] == ('ctl', 2):
            return st.mon[reg('F')]
        return self.done(E, st, st.mon[reg('R')])


class PairsOut(Machine):
    """object -> vector of pairs: for every entry its older values, oldest first, then the current one"""

    def __init__(self, M, kty, vty, pty):
        self.pty = pty
        self.M = M
        self.B = ('ents', M, kty, vty)

    def init(self, E, st, args):
        st.mon[reg('R')] = ('seq', ())
        st.mon[reg('S')] = ('ctl', 0)
        st.mon[reg('F')] = ('none',)
        st.mon[reg('E')] = ('none',)

    def inner(self, E, st):
        e = st.mon[reg('E')]
        k, kk, cell = entry(E, st, self.B, e)
        v = E.read(st, cell, ())
        return k, v

    def need(self, E, st):
        c = st.mon[reg('S')]
        if c == ('ctl', 0):
            return self.B
        if c == ('ctl', 1):
            k, v = self.inner(E, st)
            g = v[3][1][1]
            if len(g) != 1 or g[0][0] != 't':
                raise Undecided('older values')
            return ('rev', g[0][1])
        return None

    def pair(self, E, st, jcell, jty):
        """convert key and value; [(st, ok?)]"""
        k, v = self.inner(E, st)
        kt = leaf_ty(E, 'k_from_str')
        wt = leaf_ty(E, 'w_from_json')
        out = []
        for s, okk, kv in fork_result(E, st, kt, leaf('k_from_str', k), None, None):
            if not okk:
                s.mon[reg('S')] = ('ctl', 9)
                s.mon[reg('F')] = ('err', 'ConvertError')
                out.append((s, False))
                continue
            j = E.read(s, jcell, ()) if jcell[0] == 'o' else jcell
            for s2, okw, wv in fork_result(E, s, wt, leaf('w_from_json', j), None, None):
                if not okw:
                    s2.mon[reg('S')] = ('ctl', 9)
                    s2.mon[reg('F')] = ('errv', wv)
                    out.append((s2, False))
                else:
                    r = s2.mon[reg('R')]
                    s2.mon[reg('R')] = ('seq', r[1] + (('e', ('agg', self.pty, 0, (kv, wv))),))
                    out.append((s2, True))
        return out

    def feed(self, E, st, B, el):
        c = st.mon[reg('S')]
        if c == ('ctl', 0):
            if el is None:
                st.mon[reg('S')] = ('ctl', 8)
            else:
                st.mon[reg('E')] = el
                st.mon[reg('S')] = ('ctl', 1)
            return [st]
        k, v = self.inner(E, st)
        if el is not None:
            jty = v[3][1][1][0][2]
            return [s for s, ok in self.pair(E, st, ('o', el, jty), jty)]
        out = []
        st.mon.pop(('pos', B), None)
        for s, ok in self.pair(E, st, v[3][0], None):
            if ok:
                s.mon[reg('S')] = ('ctl', 0)
                s.mon[reg('E')] = ('none',)
            out.append(s)
        return out

    def expect(self, E, st):
        if st.mon[reg('S')] == ('ctl', 9):
            return st.mon[reg('F')]
        return ('ok', st.mon[reg('R')])


def obj_put(E, s, m, key, jv, vty, append):
    for s2, f in E.map_lookup(s, m, key):
        cur = E.map_entry(s2, m, f) if f is not None and append else None
        new = ('agg', vty, 0, (jv, ('seq', ((('e', cur[3][0]),) + cur[3][1][1]) if cur is not None else ())))
        yield s2, E.map_put(m, f if f is not None else key, new)


# ---------------------------------------------------------------- element steps
def st_to_vec(J, ety):
    def step(E, s, el, r):
        w = E.read(s, ('o', el, ety), ())
        yield s, True, ('seq', r[1] + (('e', ('opq', J, leaf('w_to_json', w))),))
    return step


def st_from_vec(jty):
    def step(E, s, el, r):
        j = E.read(s, ('o', el, jty), ())
        for s2, ok, v in fork_result(E, s, leaf_ty(E, 'w_from_json'), leaf('w_from_json', j), None, None):
            if ok:
                yield s2, True, ('seq', r[1] + (('e', v),))
            else:
                yield s2, False, ('errv', v)
    return step


def st_to_obj(J, ety, vty, append, entries):
    def step(E, s, el, r):
        if entries is None:
            p = E.read(s, ('o', el, ety), ())
            k, w = p[3]
        else:
            k, kk, cell = entry(E, s, entries, el)
            w = E.read(s, cell, ())
        key = (('S', leaf('k_to_string', k)),)
        for s2, m in obj_put(E, s, r, key, ('opq', J, leaf('w_to_json', w)), vty, append):
            yield s2, True, m
    return step


def st_from_map(B, kty, wty):
    def step(E, s, el, r):
        k, kk, cell = entry(E, s, B, el)
        v = E.read(s, cell, ())
        for s, okk, kv in fork_result(E, s, leaf_ty(E, 'k_from_str'), leaf('k_from_str', k), None, None):
            if not okk:
                yield s, False, ('err', 'ConvertError')
                continue
            for s2, okw, wv in fork_result(E, s, leaf_ty(E, 'w_from_json'), leaf('w_from_json', v[3][0]), None, None):
                if not okw:
                    yield s2, False, ('errv', wv)
                    continue
                for s3, f in E.map_lookup(s2, r, ('K', kv)):
                    yield s3, True, E.map_put(r, f if f is not None else ('K', kv), wv)
    return step


def tyid(E, pred):
    for i, t in enumerate(E.p.types):
        if pred(t):
            return i


def spec_of(name, E, o, st, args):
    """(machine or None, cases(E, s) -> [(s, expectation)])"""
    p = E.p
    JT = o.jty
    P1 = ('*', ('p', 1))
    vt = {v['name']: [f[1] for f in v['fields']] for v in p.types[JT]['variants']}
    objty = vt['Object'][0]
    objty = p.types[objty]['args'][0] if p.types[objty].get('def') == 'std::boxed::Box' else objty
    ekty, evty = p.types[objty]['args'][:2]

    def by_kind(table, other=('err', 'ConvertError')):
        def cases(E, s):
            for s2, k, x in o.kinds(s):
                if k in table:
                    yield from table[k](s2, x)
                else:
                    yield s2, other
        return cases

    def mach(m):
        def f(s, x=None):
            for s2, extra in m.finish(E, s):
                if s2 is None:
                    yield None, extra
                else:
                    e = m.expect(E, s2)
                    yield s2, (e + (extra,) if extra else e)
        return f

    def arg():
        return E.read(st, ('o', P1, p.types[E.p.fns[E.p.roots[name]]['locals'][1]]['elem']), ())
    ety = p.types[p.fns[p.roots[name]]['locals'][1]]['elem']
    if name == 'r_to_json':
        return None, lambda E, s: [(s, ('val', ('opq', JT, P1)))]
    if name == 'r_from_json':
        return None, lambda E, s: [(s, ('ok', ('opq', JT, P1)))]
    if name in ('r_to_string_t', 'r_to_str_t', 'r_to_rstr_t'):
        return None, lambda E, s: [(s, ('val', o.mk('String', ('str', std.as_str(E, s, args[0])))))]
    if name in ('r_to_bool', 'r_rto_bool'):
        return None, lambda E, s: [(s, ('val', o.mk('Boolean', E.read(s, ('o', P1, ety), ()))))]
    if name == 'r_from_string_t':
        return None, by_kind({'String': lambda s, x: [(s, ('ok', x))]})
    if name == 'r_from_bool':
        return None, by_kind({'Boolean': lambda s, x: [(s, ('ok', x))]})
    if name == 'r_from_opt':
        ret = p.types[p.fns[p.roots[name]]['locals'][0]]['args'][0]

        def conv(E, s):
            for s2, k, x in o.kinds(s):
                if k == 'Null':
                    yield s2, ('ok', ('agg', ret, 0, ()))
                    continue
                for s3, ok, v in fork_result(E, s2, leaf_ty(E, 'w_from_json'), leaf('w_from_json', o.J), None, None):
                    yield s3, (('ok', ('agg', ret, 1, (v,))) if ok else ('errv', v))
        return None, conv
    if name == 'r_convert':
        def conv1(E, s):
            for s3, ok, v in fork_result(E, s, leaf_ty(E, 'w_from_json'), leaf('w_from_json', o.J), None, None):
                yield s3, (('ok', v) if ok else ('errv', v))
        return None, conv1
    if name == 'r_to_opt':
        def toopt(E, s):
            v = ('opq', ety, P1)
            d = E.discr_of(s, v)
            if d not in s.dom:
                E.setdom(s, d, ((0, 1),))
            for s2, i in E.split(s, d, [((0, 0),), ((1, 1),)]):
                yield s2, ('val', o.null() if i == 0 else ('opq', JT, leaf('w_to_json', E.expand(s2, v, 1)[3][0])))
        return None, toopt
    if name in ('r_to_vec', 'r_to_slice'):
        w = p.types[ety]['args'][0] if p.types[ety]['k'] == 'adt' else p.types[ety]['elem']
        m = SeqConv(P1, ('seq', ()), st_to_vec(JT, w), lambda E, s, r: ('val', o.mk('Array', r)))
        return m, lambda E, s: mach(m)(s)
    if name == 'r_from_vec':
        m = SeqConv(('fld', P1, o.vars['Array'], 0), ('seq', ()), st_from_vec(JT), lambda E, s, r: ('ok', r))
        return m, by_kind({'Array': mach(m)})
    if name in ('r_to_pairs', 'r_to_slpairs', 'r_to_map'):
        start = ('map', None, (), ekty, evty)
        if name == 'r_to_map':
            kt, wt = p.types[ety]['args'][:2]
            B = ('ents', P1, kt, wt)
            m = SeqConv(B, start, st_to_obj(JT, None, evty, False, B), lambda E, s, r: ('val', o.mk('Object', r)))
        else:
            w = p.types[ety]['args'][0] if p.types[ety]['k'] == 'adt' else p.types[ety]['elem']
            m = SeqConv(P1, start, st_to_obj(JT, w, evty, True, None), lambda E, s, r: ('val', o.mk('Object', r)))
        return m, lambda E, s: mach(m)(s)
    M = ('fld', P1, o.vars['Object'], 0)
    B = ('ents', M, ekty, evty)
    if name == 'r_from_pairs':
        ret = p.types[p.fns[p.roots[name]]['locals'][0]]['args'][0]
        m = PairsOut(M, ekty, evty, p.types[ret]['args'][0])
        return m, by_kind({'Object': mach(m)})
    if name == 'r_from_map':
        ret = p.types[p.fns[p.roots[name]]['locals'][0]]['args'][0]
        kt, wt = p.types[ret]['args'][:2]
        m = SeqConv(B, ('map', None, (), kt, wt), st_from_map(B, kt, wt), lambda E, s, r: ('ok', r))
        return m, by_kind({'Object': mach(m)})
    # numbers
    t = name.split('_')[-1]
    if name.startswith('r_from_'):
        def num(s, x):
            y = x[1]
            if t == 'f64':
                yield s, ('ok', x)
            elif t == 'f32':
                yield s, ('ok', ('flt', ('f2f', 64, 32, y)))
            else:
                yield s, ('ok', ('op', 'f2i', t, y))
        return None, by_kind({'Number': num})

    def tonum(E, s):
        v = E.read(s, ('o', P1, ety), ())
        if t == 'f64':
            r = v
        elif t == 'f32':
            r = ('flt', ('f2f', 32, 64, v[1]))
        else:
            r = ('flt', ('i2f', t, v, 64))
        yield s, ('val', o.mk('Number', r))
    return None, tonum


NUMS = 'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64'.split()
C19 = ['r_to_json', 'r_from_json', 'r_to_string_t', 'r_to_str_t', 'r_to_rstr_t', 'r_to_bool', 'r_rto_bool', 'r_from_string_t',
       'r_from_bool', 'r_from_opt', 'r_to_opt', 'r_convert']
C20 = [a + n for n in NUMS for a in ('r_to_', 'r_rto_', 'r_from_')]
C21 = ['r_to_vec', 'r_to_slice', 'r_from_vec', 'r_to_pairs', 'r_to_slpairs', 'r_to_map', 'r_from_pairs', 'r_from_map']
