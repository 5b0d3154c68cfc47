"""Encoding a value as text (C06-C08)."""
from . import terms as T
from .terms import domain, decide
from .core import *
from . import std, coll, graph
from .coll import mat, entry, base_of
from .machine import Machine
from .conv import reg
from .spec import nvar, origin


def is_str(p, ty):
    """a text passed by reference or value"""
    while p.types[ty]['k'] == 'ref' and not p.types[ty]['mut']:
        ty = p.types[ty]['elem']
    t = p.types[ty]
    return t['k'] == 'str' or t['k'] == 'adt' and t['def'] == 'std::string::String'


def is_out(p, ty):
    """&mut String"""
    t = p.types[ty]
    if t['k'] != 'ref' or not t['mut']:
        return False
    t = p.types[t['elem']]
    return t['k'] == 'adt' and t['def'] == 'std::string::String'


def is_json(p, ty):
    while p.types[ty]['k'] == 'ref' and not p.types[ty]['mut']:
        ty = p.types[ty]['elem']
    return p.types[ty].get('def') == 'json::Json'


def shape_of(p, f, what):
    """(index of the input, index of the output text or None) of a function that turns `what` into text"""
    if 'locals' not in f or f['crate'] != 'json' or '{closure' in f['name']:
        return None
    ts = f['locals'][1:f['argc'] + 1]
    ret = p.types[f['locals'][0]]
    o = [i for i, t in enumerate(ts) if is_out(p, t)]
    x = [i for i, t in enumerate(ts) if what(p, t)]
    if len(x) != 1 or len(o) > 1 or len(ts) != len(x) + len(o):
        return None
    if o and ret == {'str': '()', 'k': 'tuple', 'elems': []}:
        return x[0], o[0]
    if not o and ret.get('def') == 'std::string::String':
        return x[0], None
    return None


def loops_inside(p, f):
    return any(True for _ in graph.calls(p, f))


class Encoders:
    """functions of the library that append or return the text of a string or of a value"""

    def __init__(self, R):
        p = R.p
        self.p = p
        self.esc, self.tos = {}, {}
        self.used = set()
        root = R.root('r_to_string')
        seen = graph.reach(p, [root['key']]) if root else {}
        for k in seen:
            f = p.fns[k]
            if k == root['key']:
                continue
            s = shape_of(p, f, is_str)
            if s:
                self.esc[k] = s
            s = shape_of(p, f, is_json)
            if s:
                self.tos[k] = s

    def hook(self, esc, top):
        """esc: summarise the string encoders; top(value) -> is it the value under study (followed, not summarised)"""
        def h(E, st, c, args):
            k = c['key']
            if esc and k in self.esc:
                self.used.add(k)
                x, o = self.esc[k]
                at = std.as_str(E, st, args[x])
                return self.give(E, st, c, args, o, (('S', ('esc', at)),))
            if k in self.tos:
                x, o = self.tos[k]
                v = std.deref(E, st, args[x])
                t = origin(v)
                if t is None:
                    raise Undecided('encoding a value made on the way')
                if top(t):
                    return None
                return self.give(E, st, c, args, o, (('S', ('tos', t)),))
            return None
        return h

    def give(self, E, st, c, args, o, atoms):
        if o is None:
            return [(st, ('str', atoms))]
        st = st.copy()
        cell, path, x = std.loc(E, st, args[o])
        E.write(st, cell, path, ('str', std.atoms_norm(x[1] + atoms)))
        return [(st, coll.UNIT)]


def tos(el):
    return ('S', ('tos', el))


def lit(t):
    return ('lit', t)


def cat(*xs):
    out = ()
    for x in xs:
        out += x if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)) else (x,)
    return ('str', std.atoms_norm(out))


class ArrayText(Machine):
    def __init__(self, B):
        self.B = B

    def init(self, E, st, args):
        st.mon[reg('S')] = ('ctl', 0)
        st.mon[reg('V')] = ('seq', ())
        st.mon[reg('R')] = ('str', (lit('['),))
        st.mon[reg('N')] = ('ctl', 0)

    def need(self, E, st):
        return self.B if st.mon[reg('S')] == ('ctl', 0) else None

    def feed(self, E, st, B, el):
        if el is None:
            st.mon[reg('S')] = ('ctl', 1)
            return [st]
        v = E.read(st, ('o', el, self.jty), ())
        item = tos(origin(v))
        st.mon[reg('V')] = ('seq', st.mon[reg('V')][1] + (('e', ('str', (item,))),))
        st.mon[reg('R')] = cat(st.mon[reg('R')][1], (lit(', '),) if st.mon[reg('N')] == ('ctl', 1) else (), item)
        st.mon[reg('N')] = ('ctl', 1)
        return [st]

    def expect(self, E, st):
        """alternatives that denote the same text"""
        a = cat(st.mon[reg('R')][1], lit(']'))
        j = coll.join(E, st, st.mon[reg('V')], (lit(', '),))[0][1]
        return [a, cat(lit('['), j[1], lit(']'))]


class ObjectText(Machine):
    def __init__(self, M, kty, vty, enc):
        self.ents = ('ents', M, kty, vty)
        self.enc = enc
        a, b = ((('S', ('key', ('el', self.ents, x))),) for x in 'ab')
        self.B = ('sorted', self.ents, ('strcmp', a, b))

    def init(self, E, st, args):
        st.mon[reg('S')] = ('ctl', 0)
        st.mon[reg('E')] = ('none',)
        st.mon[reg('V')] = ('seq', ())              # one text per entry
        st.mon[reg('W')] = ('seq', ())              # one text per member
        st.mon[reg('P')] = ('str', ())              # text of the entry so far
        st.mon[reg('Q')] = ('seq', ())              # member texts of the entry so far
        st.mon[reg('R')] = ('str', (lit('{'),))     # everything so far
        st.mon[reg('U')] = ('seq', ())              # one text per entry, made by joining its members
        st.mon[reg('T')] = ('str', (lit('{'),))     # everything so far, entries made by joining
        st.mon[reg('N')] = ('ctl', 0)
        st.mon[reg('O')] = ('ctl', 0)

    def inner(self, E, st):
        k, kk, cell = entry(E, st, self.B, st.mon[reg('E')])
        return k, E.read(st, cell, ())

    def need(self, E, st):
        c = st.mon[reg('S')]
        if c == ('ctl', 0):
            return self.B
        if c == ('ctl', 1):
            g = self.inner(E, st)[1][3][1][1]
            if len(g) != 1 or g[0][0] != 't':
                raise Undecided('older values')
            return ('rev', g[0][1])
        return None

    def member(self, E, st, v):
        k = self.inner(E, st)[0]
        return std.atoms_norm((('S', ('esc', k[1])), lit(': '), tos(origin(v))))

    def put(self, E, st, m):
        st.mon[reg('W')] = ('seq', st.mon[reg('W')][1] + (('e', ('str', m)),))
        st.mon[reg('Q')] = ('seq', st.mon[reg('Q')][1] + (('e', ('str', m)),))
        st.mon[reg('R')] = cat(st.mon[reg('R')][1], (lit(', '),) if st.mon[reg('N')] == ('ctl', 1) else (), m)
        st.mon[reg('N')] = ('ctl', 1)

    def feed(self, E, st, B, el):
        if st.mon[reg('S')] == ('ctl', 0):
            if el is None:
                st.mon[reg('S')] = ('ctl', 8)
            else:
                st.mon[reg('E')] = el
                st.mon[reg('S')] = ('ctl', 1)
                st.mon[reg('P')] = ('str', ())
                st.mon[reg('Q')] = ('seq', ())
            return [st]
        v = self.inner(E, st)[1]
        if el is not None:
            jty = v[3][1][1][0][2]
            m = self.member(E, st, E.read(st, ('o', el, jty), ()))
            self.put(E, st, m)
            st.mon[reg('P')] = cat(st.mon[reg('P')][1], m, lit(', '))
            return [st]
        st.mon.pop(('pos', B), None)
        m = self.member(E, st, v[3][0])
        self.put(E, st, m)
        t = cat(st.mon[reg('P')][1], m)
        st.mon[reg('V')] = ('seq', st.mon[reg('V')][1] + (('e', t),))
        j = coll.join(E, st, st.mon[reg('Q')], (lit(', '),))[0][1]
        st.mon[reg('U')] = ('seq', st.mon[reg('U')][1] + (('e', j),))
        st.mon[reg('T')] = cat(st.mon[reg('T')][1], (lit(', '),) if st.mon[reg('O')] == ('ctl', 1) else (), j[1])
        st.mon[reg('O')] = ('ctl', 1)
        st.mon[reg('S')] = ('ctl', 0)
        st.mon[reg('E')] = ('none',)
        st.mon[reg('P')] = ('str', ())
        st.mon[reg('Q')] = ('seq', ())
        return [st]

    def expect(self, E, st):
        out = [cat(st.mon[reg(r)][1], lit('}')) for r in 'RT']
        for r in 'VWU':
            j = coll.join(E, st, st.mon[reg(r)], (lit(', '),))[0][1]
            out.append(cat(lit('{'), j[1], lit('}')))
        return out


# ---------------------------------------------------------------- string literals
SHORT = {0x22: 0x22, 0x5C: 0x5C, 0x2F: 0x2F, 0x62: 8, 0x66: 12, 0x6E: 10, 0x72: 13, 0x74: 9}
RAW = ((0x20, 0x21), (0x23, 0x5B), (0x5D, 0x7E))
HEX = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}


def units(atoms):
    """a text as single characters and named streams; None if it has other parts"""
    out = []
    for a in atoms:
        if a[0] == 'lit':
            out += [ord(c) for c in a[1]]
        elif a[0] == 'ch':
            out.append(a[1])
        elif a[0] == 'S':
            out.append(a)
        else:
            return None
    return out


def code(t, c):
    """python source of a term over the one symbol c; None if it cannot be evaluated"""
    if isinstance(t, int):
        return str(t)
    if t == c:
        return 'c'
    if t[0] == 'lin':
        r = str(t[1])
        for a, k in t[2]:
            x = code(a, c)
            if x is None:
                return None
            r += '+%d*(%s)' % (k, x)
        return '(%s)' % r
    if t[0] == 'sel' and all(isinstance(x, int) for x in t[1]):
        x = code(t[2], c)
        return None if x is None else '%r[%s]' % (tuple(t[1]), x)
    if t[0] == 'op' and t[1] == 'Shr':
        x = code(t[2], c)
        return None if x is None else '((%s)>>%d)' % (x, t[3])
    s = set()
    if T.leaves(t, s) and s <= {c}:
        return 'EV(%r, {C: c})' % (t,)
    return None


_memo = {}


def allow(dom, c):
    """test of whether the facts about c alone allow a value"""
    fs = []
    for f, d in dom.items():
        if f == c or f[0] == 'sym':
            continue
        s = set()
        if T.leaves(f, s) and s == {c}:
            fs.append((f, d))
    return lambda x: all(T.iand(((T.ev(f, {c: x}),) * 2,), d) for f, d in fs if T.ev(f, {c: x}) is not None)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def escapes(dom, us, c, ok):
    """do four units spell the code unit `ok(c)` gives, for every value of c: True, or a value for which they do not"""
    D = domain(dom, c) if not isinstance(c, int) else ((c, c),)
    C = ('sym', 'C')
    us = tuple(subst(u, c, C) for u in us) if not isinstance(c, int) else tuple(us)
    if any(isinstance(u, tuple) and u and u[0] == 'S' for u in us):
        return D[0][0]
    key = (us, ok.__name__, D)
    bad = _memo.get(key)
    if bad is None:
        cs = [code(u, C) for u in us]
        if None in cs:
            return D[0][0]
        fn = eval('lambda c: (%s,)' % ','.join(cs), {'EV': T.ev, 'C': C})
        bad = []
        for lo, hi in D:
            for x in range(lo, hi + 1):
                try:
                    v = 0
                    for u in fn(x):
                        v = v * 16 + HEX[u]
                except (KeyError, IndexError, TypeError):
                    v = None
                if v != ok(x):
                    bad.append(x)
                    if len(bad) > 4096:
                        break
            if len(bad) > 4096:
                break
        _memo[key] = bad
    al = allow(dom, c) if not isinstance(c, int) else lambda x: True
    for x in bad:
        if al(x):
            return x
    return True


def unit1(c):
    return c


def high(c):
    return ((c - 0x10000) >> 10) + 0xD800


def low(c):
    return ((c - 0x10000) & 0x3FF) + 0xDC00


def match_char(dom, us, c):
    """number of leading units that are a valid encoding of c for every value it can have, or (None, value that has none)"""
    D = domain(dom, c) if not isinstance(c, int) else ((c, c),)
    if not us:
        return None, D[0][0]
    if us[0] == c:
        rest = T.iand(D, T.inot(RAW))
        return (1, None) if not rest else (None, rest[0][0])
    if us[0] == 0x5C and len(us) > 1 and isinstance(us[1], int) and us[1] in SHORT:
        m = SHORT[us[1]]
        for lo, hi in D:
            if lo != m or hi != m:
                return None, (lo if lo != m else hi)
        return 2, None
    if isinstance(us[0], int) and D == ((us[0], us[0]),) and T.isubset(D, RAW):
        return 1, None
    if list(us[:2]) == [0x5C, 0x75] and len(us) >= 6:
        if T.isubset(D, ((0, 0xFFFF),)):
            r = escapes(dom, us[2:6], c, unit1)
            return (6, None) if r is True else (None, r)
        if T.isubset(D, ((0x10000, 0x10FFFF),)) and len(us) >= 12 and list(us[6:8]) == [0x5C, 0x75]:
            r = escapes(dom, us[2:6], c, high)
            if r is True:
                r = escapes(dom, us[8:12], c, low)
            return (12, None) if r is True else (None, r)
    return None, D[0][0]


def live(st):
    """texts held by live cells"""
    out = []

    def scan(v, d):
        if not isinstance(v, tuple) or not v or d > 4:
            return
        if v[0] == 'str':
            out.append(v)
        elif v[0] == 'agg':
            for f in v[3]:
                scan(f, d + 1)
        elif v[0] == 'clo':
            for f in v[2]:
                scan(f, d + 1)
    for c, v in st.heap.items():
        if c[0] != 'o' and c[0] != 'K':
            scan(v, 0)
    return out


class Literal(Machine):
    """a string literal: register R is the part of the program's own text that has been shown to denote the characters taken so far"""
    chars = True

    def __init__(self, B, out):
        self.B = B
        self.out = out           # what the text held before

    def init(self, E, st, args):
        st.mon[reg('S')] = ('ctl', 0)
        st.mon[reg('R')] = ('none',)
        st.mon[reg('C')] = ('str', ())
        st.mon[('pos', self.B)] = 0

    def need(self, E, st):
        return self.B if st.mon[reg('S')] == ('ctl', 0) else None

    def item(self, B, pos):
        return cell_char(B, pos)

    def peek(self, E, st, B, pos):
        return E.peek_stream(st, B, pos)

    def prefixes(self, st):
        R = st.mon[reg('R')]
        if R != ('none',):
            return [units(R[1])]
        o = units(self.out)
        ps = [o + [0x22], o, [0x22], []]
        return [p for i, p in enumerate(ps) if p not in ps[:i]]

    def advance(self, E, st):
        st = st.copy()
        while True:
            pos = st.mon[('pos', self.B)]
            known, ended, sh = st.streams.get(self.B, (0, 0, 0))
            if pos >= known or st.mon[reg('S')] != ('ctl', 0):
                return [st]
            c = cell_char(self.B, pos)
            got = None
            vs = [(v, units(v[1])) for v in live(st)]
            for p in self.prefixes(st):
                for v, us in vs:
                    if us is None or len(us) <= len(p) or us[:len(p)] != p:
                        continue
                    n, bad = match_char(st.dom, us[len(p):], c)
                    if n is not None and len(p) + n == len(us):
                        got = v
                        break
                if got:
                    break
            if got is None:
                return [st]
            st.mon[reg('R')] = got
            st.mon[reg('C')] = ('str', std.atoms_norm(st.mon[reg('C')][1] + (('ch', c),)))
            st.mon[('pos', self.B)] = pos + 1

    def rest(self, st):
        """characters not yet taken; None if the text was not read to its end"""
        pos = st.mon[('pos', self.B)]
        known, ended, sh = st.streams.get(self.B, (0, 0, 0))
        return [cell_char(self.B, i) for i in range(pos, known)], bool(ended)

    def check(self, E, st, atoms):
        """True if the text is a literal for the characters, else (reason, character, value)"""
        us = units(E.flat(st, atoms))
        if us is None:
            return ('form of the text', None, None)
        cs, ended = self.rest(st)
        if not ended:
            return ('returns without reading the whole text', None, None)
        R = st.mon[reg('R')]
        o = units(self.out)
        if us[:len(o)] != o:
            return ('does not keep what was there', None, None)
        if R == ('none',):
            if us[len(o):len(o) + 1] != [0x22]:
                return ('does not start with a quote', None, None)
            i = len(o) + 1
        else:
            r = units(R[1])
            for p in (r, [0x22] + r, o + [0x22] + r):
                if us[:len(p)] == p and us[len(o):len(o) + 1] == [0x22]:
                    i = len(p)
                    break
            else:
                return ('does not contain the text shown so far', None, None)
        for c in cs:
            n, bad = match_char(st.dom, us[i:], c)
            if n is None:
                return ('character', c, bad)
            i += n
        if us[i:] != [0x22]:
            return ('does not end with a quote', None, None)
        return True

    def refute(self, E, st, atoms, c, value):
        """characters and the text given for them, where it is not a literal that denotes them; None if none is found"""
        import json
        us = units(E.flat(st, atoms))
        cs = units(st.mon[reg('C')][1])
        more, ended = self.rest(st)
        if us is None or cs is None or not ended:
            return None
        cs = cs + more
        o = units(self.out)
        us = us[len(o):] if us[:len(o)] == o else us
        if any(isinstance(u, tuple) and u[0] == 'S' for u in us + cs):
            return None
        dom = dict(st.dom)
        if c is not None and not isinstance(c, int):
            dom = T.restrict(dom, c, ((value, value),))
            if dom is None:
                return None
        need = [u for u in us + cs if not isinstance(u, int)]
        for env in T.witnesses(dom, need, None, 400, 40):
            x = [T.ev(u, env) for u in cs]
            y = [T.ev(u, env) for u in us]
            if None in x or None in y:
                return None
            t = ''.join(map(chr, y))
            want = ''.join(map(chr, x))
            ok = all(0x20 <= u <= 0x7E for u in y)
            if ok:
                try:
                    ok = json.loads(t) == want
                except ValueError:
                    ok = False
            if not ok:
                return want, t
        return None
