"""Paths of several steps (C18): every operation is compared with doing the steps one after another.
A recursive call on the rest of the path is named by its operation, the rest of the path and the value it works on (an induction over the length of
the path: the rest is strictly inside the path); the specification names the same call. Loops over steps are followed for paths of one to three steps."""
from . import terms as T
from .core import *
from . import std, graph
from .compose import place
from .single import Ops
from .spec import nvar, origin

ROOTS = {'r_path_find': 'find', 'r_path_find_mut': 'find_mut', 'r_path_discard': 'discard', 'r_path_update': 'update'}


def deref_ty(p, ty):
    while p.types[ty]['k'] == 'ref' or p.types[ty].get('def') == 'std::boxed::Box':
        t = p.types[ty]
        ty = t['elem'] if t['k'] == 'ref' else t['args'][0]
    return ty


class Layout:
    """where a path keeps its first step and the rest"""

    def __init__(self, p):
        self.p = p
        self.pty = next((i for i, t in enumerate(p.types) if t.get('def') == 'json::Path'), None)
        self.fi = self.ni = None
        if self.pty is None:
            return
        fs = p.types[self.pty]['variants'][0]['fields']
        for i, (_, t) in enumerate(fs):
            x = p.types[t]
            if x.get('def') == 'json::Finder':
                self.fi, self.fty = i, t
            elif x.get('def') == 'std::option::Option' and deref_ty(p, x['args'][0]) == self.pty:
                self.ni, self.oty = i, t
        if len(fs) != 2 or self.fi is None or self.ni is None:
            self.fi = None
            return
        self.some = [v['name'] for v in p.types[self.oty]['variants']].index('Some')

    def parts(self, E, s, pv):
        """(state, first step, rest or None)"""
        v = nvar(E, s, pv)
        n = v[3][self.ni]
        if n[0] == 'opq':
            d = E.discr_of(s, n)
            if d not in s.dom:
                E.setdom(s, d, ((0, 1),))
            for s2, i in E.split(s, d, [((0, 0),), ((1, 1),)]):
                yield s2, v[3][self.fi], self.rest(E, s2, E.expand(s2, n, i))
        else:
            yield s, v[3][self.fi], self.rest(E, s, n)

    def rest(self, E, s, n):
        if n[2] != self.some:
            return None
        return place(E, s, n[3][0])[1]

    def chain(self, E, st, fs):
        """a path of known length"""
        r = None
        for f in reversed(fs):
            if r is None:
                o = ('agg', self.oty, 1 - self.some, ())
            else:
                inner = r
                if self.p.types[self.p.types[self.oty]['args'][0]].get('def') == 'std::boxed::Box':
                    c = ('pp', len(st.heap))
                    st.heap[c] = r
                    inner = ('box', c)
                o = ('agg', self.oty, self.some, (inner,))
            x = [None, None]
            x[self.fi], x[self.ni] = f, o
            r = ('agg', self.pty, 0, tuple(x))
        return r

    def steps(self, E, s, pv, out):
        """the steps of a path of known length"""
        while pv is not None:
            v = nvar(E, s, pv)
            if v[0] != 'agg' or nvar(E, s, v[3][self.ni])[0] != 'agg':
                raise Undecided('path of unknown length')
            out.append(v[3][self.fi])
            pv = self.rest(E, s, nvar(E, s, v[3][self.ni]))
        return out

    def term(self, E, s, v):
        """the opaque term of a path value that is unchanged"""
        if v[0] == 'opq':
            return v[2]
        if v[0] != 'agg' or v[1] != self.pty:
            return None
        t = origin(v[3][self.fi])
        if t is None or t[0] != 'fld' or t[2:] != (0, self.fi):
            return None
        t = t[1]
        n = v[3][self.ni]
        want = ('fld', t, 0, self.ni)
        if n[0] == 'opq':
            return t if n[2] == want else None
        if not n[3]:
            return t if s.dom.get(E.discr_of(s, ('opq', self.oty, want))) == ((1 - self.some,) * 2,) else None
        b = n[3][0]
        if b != E.expand(s, ('opq', self.oty, want), self.some)[3][0]:
            return None
        if b[0] == 'box' and b[1] in s.heap and self.term(E, s, s.heap[b[1]]) != b[1][1]:
            return None
        return t


def inside(t, root):
    """is a term strictly inside another"""
    if not isinstance(t, tuple) or t == root:
        return False
    return any(x == root or inside(x, root) for x in t if isinstance(x, tuple))


class Rec:
    """names recursive calls on the rest of the path"""

    def __init__(self, R, L, op, root):
        self.R, self.L, self.op = R, L, op
        self.first = {}
        self.cands = {}
        self.count = 0
        jty = next(i for i, t in enumerate(R.p.types) if t.get('def') == 'json::Json')
        for k in graph.reach(R.p, [root['key']]):
            f = R.p.fns[k]
            if f['crate'] != 'json' or 'locals' not in f or not graph.recursive(R.p, k):
                continue
            ts = f['locals'][1:f['argc'] + 1]
            ps = [i for i, t in enumerate(ts) if deref_ty(R.p, t) == L.pty]
            js = [i for i, t in enumerate(ts) if deref_ty(R.p, t) == jty and R.p.types[t]['k'] == 'ref']
            rest = [i for i in range(len(ts)) if i not in ps + js]
            if len(ps) == 1 and (len(js) == 1 or op == 'append' and not js) and len(rest) <= 1:
                self.cands[k] = (ps[0], js[0] if js else None, rest[0] if rest else None)

    def root_args(self, E, st, args):
        self.pterm = self.L.term(E, st, place(E, st, args[1])[1]) if self.op != 'append' else None

    def hook(self, E, st, c, args):
        k = c['key']
        if k not in self.cands:
            return None
        pi, ji, ri = self.cands[k]
        pr, pv = place(E, st, args[pi])
        pt = self.L.term(E, st, pv)
        extra = args[ri] if ri is not None else None
        if ji is not None:
            jr, jv = place(E, st, args[ji])
        onstack = any(fr[0] == k for fr in st.fr)
        if not inside(pt, self.root):
            try:
                self.L.steps(E, st, pv, [])
                return None             # a path of known length: followed
            except Undecided:
                pass
        if not onstack:
            if pt != self.root or (ji is not None and (jr[1] != self.cell or jr[2] != () or (origin(jv) or jv) != ('*', ('p', 1)))):
                raise Undecided('recursion that does not begin with the whole path')
            if not self.first:
                self.op_of = k
            if self.first.setdefault(k, extra) != extra:
                raise Undecided('recursion begun in two ways')
            return None
        if self.first.get(k) != extra:
            raise Undecided('recursion with another value')
        if pt is None or not inside(pt, self.root):
            raise Undecided('recursion on a path that is not inside the path')
        self.count += 1
        tag = self.op if k == self.op_of else k
        if self.op == 'append':
            st = st.copy()
            E.write(st, pr[1], pr[2], ('opq', self.L.pty, ('recafter', tag, pt, extra)))
            if E.p.types[std.ret_ty(c)]['k'] == 'tuple':
                return [(st, ('agg', std.ret_ty(c), 0, ()))]
            return [(st, pr)]
        st, v = call(E, st, tag, pt, jr, jv, std.ret_ty(c), E.p.types[c['locals'][1 + ji]]['mut'])
        return [(st, v)]


def call(E, st, tag, pt, jr, jv, rty, mut):
    jn = origin(jv) or jv
    t = ('rec', tag, pt, jn)
    if tag in ('find_mut', 'update'):
        t = ('rec', tag, pt, jn, jr[1:])
    if mut:
        st = st.copy()
        E.write(st, jr[1], jr[2], ('opq', jv[1], ('recafter', tag, pt, jn)))
        if tag == 'find_mut':           # looking up changes nothing
            E.write(st, jr[1], jr[2], jv)
    return st, E.fresh_opaque(st, rty, t)


# ---------------------------------------------------------------- specification
class Walk:
    """the steps one after another, on a state of its own"""

    def __init__(self, o, L, op, rty):
        self.o, self.L, self.op, self.rty = o, L, op, rty

    def kinds(self, s, r):
        E, o = self.o.E, self.o
        v = E.read(s, r[1], r[2])
        n = list(o.vars)
        if v[0] == 'opq':
            d = E.discr_of(s, v)
            if d not in s.dom:
                E.setdom(s, d, ((0, len(n) - 1),))
            for s2, i in E.split(s, d, [((j, j),) for j in range(len(n))]):
                yield s2, n[i], (E.expand(s2, v, i)[3] or (None,))[0]
        else:
            yield s, n[v[2]], (v[3] or (None,))[0]

    def finder(self, s, f):
        E = self.o.E
        names = [x['name'] for x in E.p.types[self.L.fty]['variants']]
        if f[0] == 'opq':
            d = E.discr_of(s, f)
            if d not in s.dom:
                E.setdom(s, d, ((0, 1),))
            for s2, i in E.split(s, d, [((0, 0),), ((1, 1),)]):
                yield s2, names[i], E.expand(s2, f, i)[3][0]
        else:
            yield s, names[f[2]], f[3][0]

    def cases(self, s, r, f):
        for s, n, x in self.finder(s, f):
            for s2, k, c in self.kinds(s, r):
                yield s2, n, x, k, c

    def sub(self, r, kind, *path):
        return ('ref', r[1], r[2] + (('v', self.o.vars[kind]), 0) + path)

    def find(self, s, r, f):
        E = self.o.E
        for s, n, x, k, c in self.cases(s, r, f):
            if k != ('Object' if n == 'Key' else 'Array'):
                yield s, ('err', 'InvalidValueKind')
            elif n == 'Key':
                for s2, e in E.map_lookup(s, c, x[1]):
                    yield s2, (('err', 'MissingKey') if e is None else ('ok', self.sub(r, k, ('key', e), 0)))
            else:
                for s2, b in E.branch(s, T.cmp('Lt', x, E.seq_len(c))):
                    yield s2, (('ok', self.sub(r, k, ('idx', x))) if b else ('err', 'IndexOutOfRange'))

    def put(self, s, r, f, jv):
        E, o = self.o.E, self.o
        for s, n, x, k, c in self.cases(s, r, f):
            if n == 'Key':
                m = c if k == 'Object' else ('map', None, (), None, None)
                for s2, e in E.map_lookup(s, m, x[1]):
                    e = x[1] if e is None else e
                    s2 = s2.copy()
                    E.write(s2, r[1], r[2], o.mk('Object', E.map_put(m, e, o.member(None, jv))))
                    yield s2, ('ok', self.sub(r, 'Object', ('key', e), 0))
            elif k != 'Array':
                s = s.copy()
                E.write(s, r[1], r[2], o.mk('Array', ('seq', (('rep', o.null(), x), ('e', jv)))))
                yield s, ('ok', self.sub(r, 'Array', ('idx', x)))
            else:
                ln = E.seq_len(c)
                for s2, b in E.branch(s, T.cmp('Lt', x, ln)):
                    s2 = s2.copy()
                    p = self.sub(r, 'Array', ('idx', x))
                    if b:
                        E.write(s2, p[1], p[2], jv)
                    else:
                        E.write(s2, r[1], r[2], o.mk('Array', ('seq', c[1] + (('rep', o.null(), T.sub(x, ln)), ('e', jv)))))
                    yield s2, ('ok', p)

    def drop(self, s, r, f):
        E, o = self.o.E, self.o
        for s, res in self.find(s, r, f):
            if res[0] == 'err':
                yield s, res
                continue
            p = res[1]
            v = E.read(s, p[1], p[2])
            s = s.copy()
            s, k, c = next(self.kinds(s, r))
            last = p[2][-2] if p[2][-1] == 0 else p[2][-1]
            if last[0] == 'key':
                E.write(s, r[1], r[2], o.mk('Object', E.map_del(c, last[1])))
                yield s, ('ok', v)
            else:
                for s2, c2 in cut(E, s, c, last[1]):
                    E.write(s2, r[1], r[2], o.mk('Array', c2))
                    yield s2, ('ok', v)

    def run(self, s, r, pv, v):
        """(state, outcome)"""
        E, L = self.o.E, self.L
        t = L.term(E, s, pv)
        if self.induct and t is not None and t != self.root:
            jv = E.read(s, r[1], r[2])
            s, x = call(E, s, self.op, t, r, jv, self.rty, self.op not in ('find',))
            yield s, ('val', x)
            return
        for s, f, rest in L.parts(E, s, pv):
            if rest is None:
                if self.op in ('find', 'find_mut'):
                    yield from self.find(s, r, f)
                elif self.op == 'discard':
                    yield from self.drop(s, r, f)
                else:
                    yield from self.put(s, r, f, v)
                continue
            for s2, res in self.find(s, r, f):
                if res[0] == 'err' and self.op != 'update':
                    yield s2, res
                elif res[0] == 'err':
                    for s3, res3 in self.put(s2, r, f, self.o.null()):
                        yield from self.run(s3, res3[1], rest, v)
                else:
                    yield from self.run(s2, res[1], rest, v)


def cut(E, s, c, i):
    """a sequence without the element at i"""
    if len(c[1]) == 1 and c[1][0][0] == 't':
        t = c[1][0]
        yield s, ('seq', (('t', t[1], t[2], t[3], T.add(t[3], i)), ('t', t[1], t[2], T.add(t[3], T.add(i, 1)), t[4])))
        return
    raise Undecided('removal from a changed array')
