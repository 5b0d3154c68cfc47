"""Comparing exit states with specified results; reading results of analysed functions."""
from . import terms as T
from .terms import is_scalar, is_term, domain, decide, assume
from .core import Engine, St, Undecided, Panic, Undec, lit, atoms_norm, ISIZE_MAX
from . import std, coll, loops


def gen(v):
    """mentions a generalised (widened) symbol"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ('w', 'j') and len(v) == 2 and isinstance(v[1], int):
        return True
    if v[0] == 'sym' and len(v) > 1 and v[1] in ('wi', 'f'):
        return True
    return any(gen(x) for x in v if isinstance(x, tuple))


def past(v):
    """mentions an item of a stream that is no longer known by its position"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'x' and len(v) == 2 and isinstance(v[1], int) or v[:2] == ('sym', 'xc'):
        return True
    return any(past(x) for x in v if isinstance(x, tuple))


def named(v):
    """mentions an item of a stream by its position"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ('at', 'el', 't', 'ts') and len(v) > 2:
        return True
    return any(named(x) for x in v if isinstance(x, tuple))


BITS = {'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Mul', 'Div', 'Rem', 'trunc', 'cast', 'wrap', 'Not', 'Neg', 'And'}


def opaque(t):
    """mentions an arithmetic operation the domain only names"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'op' and len(t) > 1 and t[1] in BITS or t[0] == 'disp' and len(t) == 5:
        return True
    return any(opaque(x) for x in t if isinstance(x, tuple))


def settled(dom):
    """no fact depends on an operation the domain only names, or values are found for which all of them hold"""
    v = [a for a in dom if opaque(a)]
    return not v or T.witness(dom, v) is not None


def nvar(E, s, v):
    """expand an opaque value whose variant is known"""
    if isinstance(v, tuple) and v and v[0] == 'opq':
        t = E.p.types[v[1]]
        if t.get('kind') == 'Struct':
            return E.expand(s, v, 0)
        if t.get('variants') is not None and t['k'] == 'adt':
            d = domain(s.dom, E.discr_of(s, v))
            if len(t['variants']) == 1:
                return E.expand(s, v, 0)
            if d and d[0][0] == d[-1][1] and E.discr_of(s, v) in s.dom:
                return E.expand(s, v, d[0][0])
    return v


def seq_canon(E, s, v):
    out = []
    for g in E.seq_norm(v[1]):
        n = E.seg_len(g)
        if not isinstance(n, int) and decide(s.dom, T.cmp('Eq', n, 0)) is True:
            continue
        if not isinstance(n, int) and g[0] == 'rep' and decide(s.dom, T.cmp('Eq', n, 1)) is True:
            g = ('e', g[1])
        out.append(g)
    # t[a,i) e(at i) t[i+1,b) -> t[a,b)
    ch = True
    while ch:
        ch = False
        for i in range(len(out)):
            g = out[i]
            if g[0] == 'e' and isinstance(g[1], tuple):
                x = origin(g[1])
                if x is not None and x[0] == 'at':
                    if i and out[i - 1][0] == 't' and out[i - 1][1] == x[1] and out[i - 1][4] == x[2]:
                        p = out[i - 1]
                        out[i - 1:i + 1] = [('t', p[1], p[2], p[3], T.add(x[2], 1))]
                        ch = True
                        break
                    if i + 1 < len(out) and out[i + 1][0] == 't' and out[i + 1][1] == x[1] and T.add(x[2], 1) == out[i + 1][3]:
                        p = out[i + 1]
                        out[i:i + 2] = [('t', p[1], p[2], x[2], p[4])]
                        ch = True
                        break
            if i and g[0] == 't' and out[i - 1][0] == 't' and out[i - 1][1] == g[1] and out[i - 1][4] == g[3]:
                p = out[i - 1]
                out[i - 1:i + 1] = [('t', p[1], p[2], p[3], g[4])]
                ch = True
                break
    return out


def origin(v):
    """the opaque term a (possibly expanded) value stands for, if it is unchanged"""
    if v[0] == 'opq':
        return v[2]
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'S':
        return v[1][0][1]
    if v[0] == 'agg' and v[3]:
        ts = []
        for i, f in enumerate(v[3]):
            if not isinstance(f, tuple):
                return None
            if f[0] == 'sym' and len(f) == 3 and f[1] == 'v':
                o = f[2]
            elif f[0] == 'flt' and f[1][0] == 'v':
                o = f[1][1]
            elif f[0] == 'map' and not f[2]:
                o = f[1]
            elif f[0] == 'seq' and len(f[1]) == 1 and f[1][0][0] == 't' and f[1][0][3] == 0 and f[1][0][4] == ('sym', 'len', f[1][0][1]):
                o = f[1][0][1]
            else:
                o = origin(f)
            if o is None or o[0] != 'fld' or o[2] != v[2] or o[3] != i:
                return None
            ts.append(o[1])
        if all(t == ts[0] for t in ts):
            return ts[0]
    return None


class Cmp:
    """same() returns True, or records why not: self.diff (definite) or self.vague"""

    def __init__(self, E, s):
        self.E = E
        self.s = s
        self.diff = None
        self.vague = None
        self.depth = 0

    def no(self, a, b, why='', sure=None):
        if past(a) != past(b) and named(b if past(a) else a):
            self.vague = self.vague or (why, a, b)      # an item the program has gone past may be the one the other side names
        elif gen(a) or gen(b) or (opaque(a) or opaque(b)) and not sure or sure is False:
            self.vague = self.vague or (why, a, b)
        else:
            self.diff = self.diff or (why, a, b)
        return False

    def same(self, a, b, mut=False):
        E, s = self.E, self.s
        if a == b:
            return True
        self.depth += 1
        if self.depth > 400:
            raise Undecided('comparison too deep')
        a, b = nvar(E, s, a), nvar(E, s, b)
        if a == b:
            return True
        if is_scalar(a) and is_scalar(b):
            d = decide(s.dom, T.cmp('Eq', a, b))
            if d is True:
                return True
            return self.no(a, b, 'numbers differ', d is False or T.witness(s.dom, [a, b], lambda env: T.ev(a, env) != T.ev(b, env)) is not None)
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
            return self.no(a, b, 'values differ')
        if a[0] == 'box' and b[0] == 'box':
            return self.same(E.read(s, a[1], ()), E.read(s, b[1], ()), mut)
        if a[0] != b[0]:
            return self.no(a, b, 'values differ')
        k = a[0]
        if k == 'agg':
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                self.diff = self.diff or ('different variant', a, b)
                return False
            return all([self.same(x, y, mut) for x, y in zip(a[3], b[3])])
        if k == 'str':
            x, y = E.flat(s, a[1]), E.flat(s, b[1])
            if x == y:
                return True
            r = E.str_eq(s, ('str', x), ('str', y))
            if all(v for _, v in r):
                return True
            return self.no(a, b, 'texts differ', any(not v and T.feasible(s2.dom) is not None and settled(s2.dom) for s2, v in r))
        if k == 'seq':
            return self.seq(a, b, mut)
        if k == 'map':
            return self.map(a, b, mut)
        if k == 'ref':
            if a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.step(x, y) for x, y in zip(a[2], b[2])):
                return True
            if mut:
                return self.no(a, b, 'different places')
            return self.same(E.read(s, a[1], a[2]), E.read(s, b[1], b[2]))
        return self.no(a, b, 'values differ')

    def step(self, x, y):
        if x == y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'idx':
            return decide(self.s.dom, T.cmp('Eq', x[1], y[1])) is True
        return False

    def seq(self, a, b, mut):
        E, s = self.E, self.s
        x, y = seq_canon(E, s, a), seq_canon(E, s, b)
        if x == y:
            return True
        i = 0
        while x and y:
            p, q = x[0], y[0]
            if p[0] == 'e' and q[0] == 'e':
                if not self.same(p[1], q[1], mut):
                    return False
                x.pop(0), y.pop(0)
                continue
            if p[0] == q[0] and p[0] == 't' and p[1] == q[1] and T.cmp('Eq', p[3], q[3]) in (1, True) or p[:4] == q[:4] and p[0] == 't':
                d = decide(s.dom, T.cmp('Eq', p[4], q[4]))
                if p[4] == q[4] or d is True:
                    x.pop(0), y.pop(0)
                    continue
                if decide(s.dom, T.cmp('Le', p[4], q[4])) is True:
                    x.pop(0)
                    y[0] = ('t', q[1], q[2], p[4], q[4])
                    continue
                if decide(s.dom, T.cmp('Le', q[4], p[4])) is True:
                    y.pop(0)
                    x[0] = ('t', p[1], p[2], q[4], p[4])
                    continue
                return self.no(a, b, 'sequences differ')
            if p[0] == 'rep' and q[0] == 'rep':
                if not self.same(p[1], q[1], mut):
                    return False
                d = decide(s.dom, T.cmp('Eq', p[2], q[2]))
                if d is True:
                    x.pop(0), y.pop(0)
                    continue
                return self.no(a, b, 'sequences differ')
            if p[0] == 'e' and q[0] in ('t', 'rep'):
                r = self.peel(q, p[1])
                if r is None:
                    return self.no(a, b, 'sequences differ')
                if not self.same(p[1], r[0], mut):
                    return False
                x.pop(0)
                y[0] = r[1]
                continue
            if q[0] == 'e' and p[0] in ('t', 'rep'):
                r = self.peel(p, q[1])
                if r is None:
                    return self.no(a, b, 'sequences differ')
                if not self.same(r[0], q[1], mut):
                    return False
                y.pop(0)
                x[0] = r[1]
                continue
            return self.no(a, b, 'sequences differ')
        if x or y:
            for g in x + y:
                d = decide(s.dom, T.cmp('Eq', E.seg_len(g), 0))
                if d is not True:
                    return self.no(a, b, 'sequences of different length')
        return True

    def peel(self, g, other=None):
        E, s = self.E, self.s
        n = E.seg_len(g)
        if decide(s.dom, T.cmp('Le', 1, n)) is not True:
            return None
        if g[0] == 't' and g[2] is None:
            # an element of a sequence of references, of the type of what it is compared with
            if g[1][0] != 'refs' or not isinstance(other, tuple) or other[0] != 'ref' or other[1][0] != 'o':
                raise Undecided('element of an untyped view')
            return ('ref', ('o', ('el', g[1][1], g[3]), other[1][2]), ()), ('t', g[1], None, T.add(g[3], 1), g[4])
        if g[0] == 't':
            return E.elem(s, g, 0), ('t', g[1], g[2], T.add(g[3], 1), g[4])
        return g[1], ('rep', g[1], T.sub(g[2], 1))

    def map(self, a, b, mut):
        E, s = self.E, self.s
        if a[1] != b[1]:
            return self.no(a, b, 'different maps')
        ka = {u[0]: u for u in a[2]}
        kb = {u[0]: u for u in b[2]}
        for k in sorted(set(ka) | set(kb), key=T.akey):
            x, y = ka.get(k), kb.get(k)
            x = x or self.base(a, k)
            y = y or self.base(b, k)
            if x is None or y is None:
                return self.no(a, b, 'presence of a key differs')
            if x[1] != y[1]:
                return self.no(a, b, 'presence of a key differs')
            if x[1] and not self.same(x[2], y[2], mut):
                return False
        return True

    def base(self, m, k):
        E, s = self.E, self.s
        if m[1] is None:
            return (k, 0, None)
        has = ('sym', 'has', m[1], k)
        d = decide(s.dom, has) if has in s.dom else None
        if d is True:
            return (k, 1, E.fresh_opaque(s, m[4], ('val', m[1], k)))
        if d is False:
            return (k, 0, None)
        return None


# ---------------------------------------------------------------- rendering for reports
def show(E, v, d=0):
    if isinstance(v, int):
        return str(v)
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if d > 6:
        return '..'
    try:
        if k == 'agg':
            t = E.p.types[v[1]] if v[1] is not None else None
            n = ''
            if t and t['k'] == 'adt':
                n = t['def'].split('::')[-1]
                if t['kind'] == 'Enum':
                    n += '::' + t['variants'][v[2]]['name']
            return n + ('(' + ', '.join(show(E, x, d + 1) for x in v[3]) + ')' if v[3] or not n else '')
        if k == 'str':
            return '"' + ''.join(show_atom(E, a, d + 1) for a in v[1]) + '"'
        if k == 'seq':
            return '[' + ', '.join(show(E, g[1], d + 1) if g[0] == 'e' else
                                   ('%s[%s..%s]' % (tshow(g[1]), tshow(g[3]), tshow(g[4])) if g[0] == 't' else '%s x %s' % (show(E, g[1], d + 1), tshow(g[2])))
                                   for g in v[1]) + ']'
        if k == 'map':
            return 'map{%s%s}' % ('' if v[1] is None else tshow(v[1]) + ' ', ', '.join(
                ('%s: %s' % (show(E, ('str', u[0]), d + 1), show(E, u[2], d + 1))) if u[1] else 'without ' + show(E, ('str', u[0]), d + 1) for u in v[2]))
        if k == 'opq':
            return tshow(v[2])
        if k == 'ref':
            return '&' + tshow(v[1]) + ''.join('.' + (str(p) if isinstance(p, int) else {'v': 'v', 'idx': 'idx', 'key': 'key', 'slice': 'sl'}[p[0]] + ':' + tshow(p[1])) for p in v[2])
        if k == 'flt':
            return 'float:' + tshow(v[1])
    except Exception:
        pass
    return tshow(v)


def show_atom(E, a, d):
    if not isinstance(a, tuple) or not a:
        return str(a)
    if a[0] == 'lit':
        return a[1]
    if a[0] == 'ch':
        return '<' + tshow(a[1]) + '>'
    if a[0] == 'S':
        return '{' + tshow(a[1]) + '}'
    if a[0] == 'in':
        return '{%s from %s}' % (tshow(a[1]), a[2])
    return '{' + tshow(a) + '}'


PN = {}


def tshow(t):
    if isinstance(t, int):
        return str(t)
    if isinstance(t, str):
        return t
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'p':
        return 'arg%d' % t[1]
    if k == '*':
        return '*' + tshow(t[1])
    if k == 'fld':
        return '%s.%s.%s' % (tshow(t[1]), t[2], t[3])
    if k in ('at', 'el') and len(t) == 3:
        return '%s[%s]' % (tshow(t[1]), tshow(t[2]))
    if k == 'val':
        return '%s{%s}' % (tshow(t[1]), ''.join(show_atom(None, a, 0) for a in t[2]) if isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple) and t[2][0][0] != 'agg' else tshow(t[2]))
    if k == 'key':
        return 'key(%s)' % tshow(t[1])
    if k == 'sym':
        if t[1] == 'v':
            return tshow(t[2])
        if t[1] in ('len', 'mlen'):
            return 'len(%s)' % tshow(t[2])
        if t[1] == 'c':
            return '%s#%d' % (tshow(t[2]), t[3])
        return ':'.join(tshow(x) for x in t[1:])
    if k == 'lin':
        return '+'.join(('%d*' % c if c != 1 else '') + tshow(x) for x, c in t[2]) + ('%+d' % t[1] if t[1] else '')
    if k == 'o':
        return tshow(t[1])
    if k == 'leaf':
        return '%s(%s)' % (t[1], ', '.join(show(None, x) for x in t[2]))
    return '%s(%s)' % (k, ', '.join(tshow(x) for x in t[1:]))
