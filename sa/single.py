"""Single-step operations on a value (C11-C15): expected outcome of every call, from the property texts alone."""
from . import terms as T
from .terms import domain, decide
from .core import *
from . import std, coll, loops
from .spec import Cmp, show, nvar

JARG = ('p', 1)


class Ops:
    """spec-level view of the argument value"""

    def __init__(self, E, jty):
        self.E = E
        self.jty = jty
        self.vars = {v['name']: i for i, v in enumerate(E.p.types[jty]['variants'])}
        self.J = ('opq', jty, ('*', JARG))
        self.cell = ('o', ('*', JARG), jty)

    def kinds(self, s):
        a = self.E.discr_of(s, self.J)
        self.E.setdom(s, a, ((0, len(self.vars) - 1),))
        n = list(self.vars)
        for s2, i in self.E.split(s, a, [((j, j),) for j in range(len(n))]):
            yield s2, n[i], (self.E.expand(s2, self.J, i)[3] or (None,))[0]

    def mk(self, name, *fs):
        return ('agg', self.jty, self.vars[name], tuple(fs))

    def null(self):
        return self.mk('Null')

    def tojson(self, w):
        return ('opq', self.jty, ('leaf', 'w_to_json', (w,)))

    def member(self, m, v):
        """value of a map entry holding only v"""
        return ('agg', m, 0, (v, ('seq', ())))

    def place(self, kind, *path):
        return ('ref', self.cell, (('v', self.vars[kind]), 0) + path)


def key_cases(o, s):
    """(state, kind, map, key present?)"""


def find(o, s, key=None, idx=None):
    E = o.E
    for s, k, x in o.kinds(s):
        if key is not None:
            if k != 'Object':
                yield s, ('err', 'InvalidValueKind'), o.J
                continue
            for s2, f in E.map_lookup(s, x, key):
                if f is None:
                    yield s2, ('err', 'MissingKey'), o.J
                else:
                    yield s2, ('ok', o.place('Object', ('key', f), 0)), o.J
        else:
            if k != 'Array':
                yield s, ('err', 'InvalidValueKind'), o.J
                continue
            for s2, b in E.branch(s, T.cmp('Lt', idx, E.seq_len(x))):
                yield s2, (('ok', o.place('Array', ('idx', idx))) if b else ('err', 'IndexOutOfRange')), o.J


def index(o, s, **kw):
    for s, r, j in find(o, s, **kw):
        yield s, (('val', r[1]) if r[0] == 'ok' else ('panic',)), j


def setitem(o, s, v, key=None, idx=None):
    E = o.E
    jv = o.tojson(v)
    for s, k, x in o.kinds(s):
        if key is not None:
            m = x if k == 'Object' else ('map', None, (), None, None)
            outs = E.map_lookup(s, m, key)
            for s2, f in outs:
                n = E.map_put(m, f if f is not None else key, o.member(None, jv))
                yield s2, ('ok', o.place('Object', ('key', f if f is not None else key), 0)), o.mk('Object', n)
        else:
            if k != 'Array':
                yield s, ('ok', o.place('Array', ('idx', idx))), o.mk('Array', ('seq', (('rep', o.null(), idx), ('e', jv))))
                continue
            n = E.seq_len(x)
            for s2, b in E.branch(s, T.cmp('Lt', idx, n)):
                if b:
                    t = x[1][0]
                    new = ('seq', (('t', t[1], t[2], 0, idx), ('e', jv), ('t', t[1], t[2], T.add(idx, 1), n)))
                else:
                    new = ('seq', x[1] + (('rep', o.null(), T.sub(idx, n)), ('e', jv)))
                yield s2, ('ok', o.place('Array', ('idx', idx))), o.mk('Array', new)


def discard(o, s, key=None, idx=None, value=True, missing_ok=False):
    E = o.E
    for s, k, x in o.kinds(s):
        if k != ('Object' if key is not None else 'Array'):
            yield s, ('err', 'InvalidValueKind'), o.J
            continue
        if key is not None:
            for s2, f in E.map_lookup(s, x, key):
                if f is None:
                    yield s2, (('ok', None) if missing_ok else ('err', 'MissingKey')), o.J
                else:
                    cur = E.map_entry(s2, x, f)
                    yield s2, ('ok', cur[3][0] if value else None), o.mk('Object', E.map_del(x, f))
        else:
            n = E.seq_len(x)
            for s2, b in E.branch(s, T.cmp('Lt', idx, n)):
                if not b:
                    yield s2, ('err', 'IndexOutOfRange'), o.J
                    continue
                t = x[1][0]
                new = ('seq', (('t', t[1], t[2], 0, idx), ('t', t[1], t[2], T.add(idx, 1), n)))
                yield s2, ('ok', E.elem(s2, t, idx) if value else None), o.mk('Array', new)


def insert(o, s, k, v, append):
    E = o.E
    key = ('S', ('leaf', 'k_to_string', (k,))),
    jv = o.tojson(v)
    for s, kind, x in o.kinds(s):
        if kind != 'Object':
            yield s, ('err', 'InvalidValueKind'), o.J
            continue
        for s2, f in E.map_lookup(s, x, key):
            if f is None or not append:
                new = o.member(None, jv)
            else:
                cur = E.map_entry(s2, x, f)
                new = ('agg', None, 0, (jv, ('seq', (('e', cur[3][0]),) + cur[3][1][1])))
            yield s2, ('ok', None), o.mk('Object', E.map_put(x, f if f is not None else key, new))


def push(o, s, v):
    for s, k, x in o.kinds(s):
        if k != 'Array':
            yield s, ('err', 'InvalidValueKind'), o.J
        else:
            yield s, ('ok', None), o.mk('Array', ('seq', x[1] + (('e', o.tojson(v)),)))


def replace(o, s, i, v):
    E = o.E
    for s, k, x in o.kinds(s):
        if k != 'Array':
            yield s, ('err', 'InvalidValueKind'), o.J
            continue
        n = E.seq_len(x)
        for s2, b in E.branch(s, T.cmp('Lt', i, n)):
            t = x[1][0]
            if b:
                yield s2, ('ok', None), o.mk('Array', ('seq', (('t', t[1], t[2], 0, i), ('e', o.tojson(v)), ('t', t[1], t[2], T.add(i, 1), n))))
            else:
                yield s2, ('err', 'IndexOutOfRange'), o.J


def merge(o, s, key):
    """current value last, older ones before it, oldest first"""
    E = o.E
    for s, k, x in o.kinds(s):
        if k != 'Object':
            yield s, ('err', 'InvalidValueKind'), o.J
            continue
        for s2, f in E.map_lookup(s, x, key):
            if f is None:
                yield s2, ('err', 'MissingKey'), o.J
                continue
            cur = E.map_entry(s2, x, f)
            l = cur[3][1][1][0]
            segs = (('t', ('refs', ('rev', l[1])), None, 0, l[4]), ('e', o.place('Object', ('key', f), 0)))
            yield s2, ('ok', ('seq', segs)), o.J


def S(a):
    return a[1]


# root -> (property, spec(o, s, args))
ROOTS = {
    'r_find_key': ('C11', lambda o, s, a: find(o, s, key=S(a[1]))),
    'r_find_string': ('C11', lambda o, s, a: find(o, s, key=S(a[1]))),
    'r_find_rstring': ('C11', lambda o, s, a: find(o, s, key=S(std.deref(o.E, s, a[1])))),
    'r_find_idx': ('C11', lambda o, s, a: find(o, s, idx=a[1])),
    'r_find_ridx': ('C11', lambda o, s, a: find(o, s, idx=std.deref(o.E, s, a[1]))),
    'r_find_mut_key': ('C11', lambda o, s, a: find(o, s, key=S(a[1]))),
    'r_find_mut_idx': ('C11', lambda o, s, a: find(o, s, idx=a[1])),
    'r_index_key': ('C11', lambda o, s, a: index(o, s, key=S(a[1]))),
    'r_index_idx': ('C11', lambda o, s, a: index(o, s, idx=a[1])),
    'r_index_mut_key': ('C11', lambda o, s, a: index(o, s, key=S(a[1]))),
    'r_index_mut_idx': ('C11', lambda o, s, a: index(o, s, idx=a[1])),
    'r_update_key': ('C12', lambda o, s, a: setitem(o, s, a[2], key=S(a[1]))),
    'r_update_idx': ('C12', lambda o, s, a: setitem(o, s, a[2], idx=a[1])),
    'r_discard_key': ('C13', lambda o, s, a: discard(o, s, key=S(a[1]))),
    'r_discard_idx': ('C13', lambda o, s, a: discard(o, s, idx=a[1])),
    'r_delete': ('C13', lambda o, s, a: discard(o, s, key=S(a[1]), value=False, missing_ok=True)),
    'r_remove': ('C13', lambda o, s, a: discard(o, s, idx=a[1], value=False)),
    'r_insert': ('C14', lambda o, s, a: insert(o, s, a[1], a[2], False)),
    'r_append': ('C14', lambda o, s, a: insert(o, s, a[1], a[2], True)),
    'r_push': ('C14', lambda o, s, a: push(o, s, a[1])),
    'r_replace': ('C14', lambda o, s, a: replace(o, s, a[1], a[2])),
    'r_merge': ('C16', lambda o, s, a: merge(o, s, S(a[1]))),
}
MUTREF = ('r_find_mut', 'r_index_mut', 'r_update')
