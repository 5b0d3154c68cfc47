"""Scalar abstract domain: linear normal forms over atoms, with interval-set facts per atom/form.

A scalar value is a Python int (exact) or a tuple term:
  ('sym', name...)                   atom
  ('lin', c, ((atom, coef), ...))    linear form, atoms sorted, >=1 atom, not (c==0 and single coef 1)
  ('op', name, args...)              uninterpreted operation, an atom
  ('pw', atom, ((lo,hi,off),...))    piecewise translation of an atom (value = atom+off on [lo,hi]), an atom
  ('sel', table, term)               table lookup, an atom
  ('cmp', op, form)                  boolean: form op 0, op in lt, le, eq ;  ('not', b)
Interval sets are tuples of disjoint ascending (lo, hi).
"""
import math

INF = 1 << 200
TOP = ((-INF, INF),)
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def iset(*xs):
    return inorm(xs)


def inorm(xs):
    xs = sorted(x for x in xs if x[0] <= x[1])
    out = []
    for lo, hi in xs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iand(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def ior(a, b):
    return inorm(a + b)


def inot(a, univ=TOP):
    out = []
    cur = -INF
    for lo, hi in a:
        if cur <= lo - 1:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= INF:
        out.append((cur, INF))
    return iand(tuple(out), univ)


def isub(a, b):
    return iand(a, inot(b))


def isubset(a, b):
    return iand(a, b) == a


def ishift(a, k):
    return tuple((max(-INF, lo + k) if lo > -INF else lo, min(INF, hi + k) if hi < INF else hi) for lo, hi in a)


def hull(a):
    return (a[0][0], a[-1][1])


def iscale(a, k):
    if k == 1:
        return a
    if k == -1:
        return tuple((-hi, -lo) for lo, hi in reversed(a))
    if k > 0 and len(a) <= 4:
        return inorm([(lo * k if lo > -INF else -INF, hi * k if hi < INF else INF) for lo, hi in a])
    if not a:
        return a
    lo, hi = hull(a)
    if k > 0:
        return ((max(-INF, lo * k), min(INF, hi * k)),)
    return ((max(-INF, hi * k), min(INF, lo * k)),)


def idiv(a, k):
    """the x with k * x in a"""
    if k < 0:
        a, k = iscale(a, -1), -k
    if k == 1:
        return a
    return inorm([(-INF if lo <= -INF else -(-lo // k), INF if hi >= INF else hi // k) for lo, hi in a])


def iadd(a, b):
    if len(a) == 1 and a[0][0] == a[0][1]:
        return ishift(b, a[0][0])
    if len(b) == 1 and b[0][0] == b[0][1]:
        return ishift(a, b[0][0])
    if len(a) * len(b) > 16:
        a = (hull(a),)
        b = (hull(b),)
    return inorm([(max(-INF, x[0] + y[0]), min(INF, x[1] + y[1])) for x in a for y in b])


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


_keys = {}


def akey(a):
    k = _keys.get(a)
    if k is None:
        k = repr(a)
        if len(_keys) > 500000:
            _keys.clear()
        _keys[a] = k
    return k


def is_term(v):
    return isinstance(v, tuple) and v and v[0] in ('sym', 'lin', 'op', 'pw', 'sel', 'cmp', 'not')


def is_scalar(v):
    return isinstance(v, int) or is_term(v)


def parts(t):
    """(const, {atom: coef})"""
    if isinstance(t, int):
        return t, ()
    if t[0] == 'lin':
        return t[1], t[2]
    return 0, ((t, 1),)


def mk(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: akey(x[0])))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('lin', c, items)


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, pa = parts(a)
    cb, pb = parts(b)
    d = dict(pa)
    for x, k in pb:
        d[x] = d.get(x, 0) + kb * k
    return mk(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, p = parts(a)
    return mk(c * k, {x: y * k for x, y in p})


def form(t):
    """canonical (form without const, sign, const): t = sign*form + const"""
    c, p = parts(t)
    s = 1
    if p and p[0][1] < 0:
        s = -1
        p = tuple((a, -k) for a, k in p)
    g = math.gcd(*(k for _, k in p)) if p else 1
    if g > 1:
        s *= g
        p = tuple((a, k // g) for a, k in p)
    if len(p) == 1 and p[0][1] == 1:
        f = p[0][0]
    else:
        f = ('lin', 0, p)
    return f, s, c


def atom_dom(dom, a):
    d = dom.get(a)
    if a[0] == 'pw':
        base = atom_dom(dom, a[1])
        r = inorm([x for lo, hi, off in a[2] for x in ishift(iand(base, ((lo, hi),)), off)])
        return r if d is None else iand(r, d)
    if a[0] == 'sel':
        r = domain(dom, a[2])
        tab = a[1]
        r = iand(r, ((0, len(tab) - 1),))
        vals = inorm([(tab[i], tab[i]) for lo, hi in r for i in range(lo, hi + 1) if isinstance(tab[i], int)])
        return vals if d is None else iand(vals, d)
    if a[0] == 'op' and a[1] == 'Shr':
        r = domain(dom, a[2])
        k = a[3]
        r = inorm([((lo >> k) if lo > -INF else lo, (hi >> k) if hi < INF else hi) for lo, hi in r])
        return r if d is None else iand(r, d)
    return TOP if d is None else d


def domain(dom, t):
    if isinstance(t, int):
        return ((t, t),)
    if t[0] in ('cmp', 'not'):
        b = decide(dom, t)
        return ((0, 1),) if b is None else ((int(b), int(b)),)
    if t[0] != 'lin':
        return atom_dom(dom, t)
    c, p = t[1], t[2]
    r = ((c, c),)
    for a, k in p:
        r = iadd(r, iscale(atom_dom(dom, a), k))
    if len(p) > 1:
        d = modrem(dom, t)
        if d is not None:
            r = iand(r, d)
        d = modrem(dom, scale(t, -1))
        if d is not None:
            r = iand(r, iscale(d, -1))
    f, s, c = form(t)
    if len(p) > 1 or p[0][1] not in (1, -1):
        d = dom.get(f)
        if d is not None:
            r = iand(r, ishift(iscale(d, s), c))
    return r


def domain2(dom, t):
    """domain, also using facts about parts of the sum"""
    d = domain(dom, t)
    if isinstance(t, int) or t[0] != 'lin' or len(t[2]) < 2 or d and d[0][0] >= 0:
        return d
    rest, r = t, ((0, 0),)
    for f, fd in dom.items():
        if f[0] != 'lin' or isinstance(rest, int):
            continue
        p = dict(parts(rest)[1])
        a0, k0 = f[2][0]
        if p.get(a0, 0) % k0 or not p.get(a0):
            continue
        m = p[a0] // k0
        if all(p.get(a) == m * k for a, k in f[2]):
            rest = sub(rest, scale(f, m))
            r = iadd(r, iscale(domain(dom, f), m))
    return iand(d, iadd(r, domain(dom, rest))) or d


def modrem(dom, t):
    """t contains m*(X - 2^w * (X>>w)): that part lies in [0, m*(2^w-1)]"""
    c, p = t[1], t[2]
    d = dict(p)
    for a, k in p:
        if a[0] == 'op' and a[1] == 'Shr' and k < 0:
            for j in range(a[3] - 1, -1, -1):
                w = a[3] - j
                if (-k) % (1 << w):
                    continue
                m = (-k) >> w
                x = shr(dom, a[2], j)
                if isinstance(x, int) or not all(d.get(b) == m * kb for b, kb in parts(x)[1]):
                    continue
                rest = sub(t, scale(sub(x, scale(a, 1 << w)), m))
                return iadd(((0, m * ((1 << w) - 1)),), domain(dom, rest))
    return None


def cmp(op, a, b):
    """op in Lt Le Gt Ge Eq Ne"""
    if isinstance(a, int) and isinstance(b, int):
        return int({'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Eq': a == b, 'Ne': a != b}[op])
    if op in ('Eq', 'Ne'):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and is_term(x) and x[0] in ('cmp', 'not'):
                r = x if y == 1 else (neg(x) if y == 0 else 0)
                return r if op == 'Eq' else neg(r)
    if op == 'Gt':
        return cmp('Lt', b, a)
    if op == 'Ge':
        return cmp('Le', b, a)
    if op == 'Ne':
        return neg(cmp('Eq', a, b))
    d = sub(a, b)
    if isinstance(d, int):
        return int({'Lt': d < 0, 'Le': d <= 0, 'Eq': d == 0}[op])
    return ('cmp', op, d)


def neg(b):
    if isinstance(b, int):
        return 1 - b
    if b[0] == 'not':
        return b[1]
    return ('not', b)


CS = {'Lt': ((-INF, -1),), 'Le': ((-INF, 0),), 'Eq': ((0, 0),)}


def decide(dom, b):
    if isinstance(b, int):
        return bool(b)
    if b[0] == 'not':
        r = decide(dom, b[1])
        return None if r is None else not r
    if b[0] == 'cmp':
        d = domain(dom, b[2])
        if not d:
            return True
        cs = CS[b[1]]
        i = iand(d, cs)
        if not i:
            return False
        if i == d:
            return True
        return None
    d = domain(dom, b)
    if iand(d, ((0, 0),)) == d:
        return False
    if not iand(d, ((0, 0),)):
        return True
    return None


def restrict(dom, t, s):
    """dom with the fact t in s added; None if that is contradictory"""
    if isinstance(t, int):
        return dom if iand(((t, t),), s) else None
    cur = domain(dom, t)
    n = iand(cur, s)
    if not n:
        return None
    if n == cur:
        return dom
    f, sg, c = form(t)
    ns = idiv(ishift(n, -c), sg)
    if not ns:
        return None
    if f[0] == 'pw':
        base = atom_dom(dom, f[1])
        nb = inorm([x for lo, hi, off in f[2] for x in iand(iand(base, ((lo, hi),)), ishift(ns, -off))])
        return restrict(dom, f[1], nb)
    if f[0] == 'sel':
        idx = domain(dom, f[2])
        keep = inorm([(i, i) for lo, hi in iand(idx, ((0, len(f[1]) - 1),)) for i in range(lo, hi + 1)
                      if iand(((f[1][i], f[1][i]),), ns)])
        return restrict(dom, f[2], keep)
    if f[0] == 'op' and f[1] == 'Shr':
        k = f[3]
        keep = inorm([((lo << k) if lo > -INF else lo, ((hi << k) + (1 << k) - 1) if hi < INF else hi) for lo, hi in ns])
        d2 = restrict(dom, f[2], keep)
        if d2 is None:
            return None
        dom = d2
    d2 = dict(dom)
    d2[f] = iand(dom[f], ns) if f in dom else ns
    # bound propagation into the atoms of a multi-atom form
    if f[0] == 'lin':
        for a, k in f[2]:
            if a[0] not in ('sym', 'op'):
                continue
            rest = ((0, 0),)
            for a2, k2 in f[2]:
                if a2 != a:
                    rest = iadd(rest, iscale(atom_dom(d2, a2), k2))
            r = iadd(d2[f], iscale(rest, -1))
            if not r:
                return None
            lo, hi = hull(r)
            if k > 0:
                lo2 = -INF if lo <= -INF else -((-lo) // k)
                hi2 = INF if hi >= INF else hi // k
            else:
                lo2 = -INF if hi >= INF else -((hi) // (-k))
                hi2 = INF if lo <= -INF else (-lo) // (-k)
            if lo2 > -INF or hi2 < INF:
                ca = atom_dom(d2, a)
                na = iand(ca, ((lo2, hi2),))
                if not na:
                    return None
                if na != ca and a[0] == 'sym':
                    d2[a] = na
    return d2


def feasible(dom, rounds=12):
    """re-propagate every fact about a form with several atoms; the tightened facts, or None if contradictory"""
    fs = [f for f in dom if f[0] == 'lin']
    for _ in range(rounds):
        before = dom
        for f in fs:
            ns = dom[f]
            n = iand(domain(dom, f), ns)
            if not n:
                return None
            for a, k in f[2]:
                if a[0] not in ('sym', 'op'):
                    continue
                rest = ((0, 0),)
                for a2, k2 in f[2]:
                    if a2 != a:
                        rest = iadd(rest, iscale(atom_dom(dom, a2), k2))
                r = iadd(n, iscale(rest, -1))
                if not r:
                    return None
                lo, hi = hull(r)
                if k > 0:
                    lo2 = -INF if lo <= -INF else -((-lo) // k)
                    hi2 = INF if hi >= INF else hi // k
                else:
                    lo2 = -INF if hi >= INF else -(hi // (-k))
                    hi2 = INF if lo <= -INF else (-lo) // (-k)
                ca = atom_dom(dom, a)
                na = iand(ca, ((lo2, hi2),))
                if not na:
                    return None
                if na != ca:
                    if dom is before:
                        dom = dict(dom)
                    dom[a] = iand(dom[a], na) if a in dom else na
        if dom is before:
            break
        dom = dict(dom)
    return dom


def assume(dom, b, val):
    """dom under boolean term b == val, or None"""
    if isinstance(b, int):
        return dom if bool(b) == val else None
    if b[0] == 'not':
        return assume(dom, b[1], not val)
    if b[0] == 'cmp':
        cs = CS[b[1]]
        return restrict(dom, b[2], cs if val else inot(cs))
    return restrict(dom, b, ((1, INF),) if val else ((0, 0),))


def lowbits_clear(dom, t, k):
    """is t a multiple of 2**k (syntactically)"""
    c, p = parts(t)
    m = 1 << k
    return c % m == 0 and all(x[1] % m == 0 for x in p)


def bitlen(dom, t):
    d = domain(dom, t)
    if not d or d[0][0] < 0 or d[-1][1] >= INF:
        return None
    return d[-1][1].bit_length()


def shr(dom, t, k):
    """exact for non-negative t"""
    if isinstance(t, int):
        return t >> k
    if k == 0:
        return t
    m = 1 << k
    c, p = parts(t)
    # split t = m*hi + lo with lo in [0, m)
    hi = {a: x // m for a, x in p if x % m == 0}
    lo = mk(c % m, {a: x for a, x in p if x % m})
    d = domain(dom, lo)
    if d and 0 <= d[0][0] and d[-1][1] < m:
        return mk(c // m, hi)
    if d and d[0][0] > -INF and d[-1][1] < INF and (d[0][0] >> k) == (d[-1][1] >> k):
        return mk(c // m + (d[0][0] >> k), hi)
    if not isinstance(lo, int) and lo[0] == 'op' and lo[1] == 'Shr' and not hi and c // m == 0:
        return ('op', 'Shr', lo[2], lo[3] + k)
    if t[0] == 'op' and t[1] == 'Shr':
        return ('op', 'Shr', t[2], t[3] + k)
    if not isinstance(lo, int):
        for a, x in parts(lo)[1]:
            if x == 1 and a[0] == 'op' and a[1] == 'Shr':
                # floor((floor(A / 2^a) + B) / 2^k) = floor((A + 2^a B) / 2^(a + k))
                r = shr(dom, add(a[2], scale(sub(lo, a), 1 << a[3])), a[3] + k)
                return add(mk(c // m, hi), r)
    dt = domain(dom, t)
    if dt and len(dt) >= 1 and (dt[0][0] >> k) == (dt[-1][1] >> k) and dt[0][0] > -INF and dt[-1][1] < INF:
        return dt[0][0] >> k
    return add(mk(c // m, hi), ('op', 'Shr', lo, k) if not isinstance(lo, int) else lo >> k)


def bitand(dom, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        # a sum over the runs of ones of the mask
        d = domain2(dom, a)
        if b > 0 and d and d[0][0] >= 0:
            r, s = 0, 0
            while b >> s:
                s += ((b >> s) & -(b >> s)).bit_length() - 1
                w = 0
                while (b >> (s + w)) & 1:
                    w += 1
                x = shr(dom, a, s)
                y = shr(dom, x, w) if not isinstance(x, int) else x >> w
                r = add(r, scale(sub(x, scale(y, 1 << w)), 1 << s))
                s += w
            return r
    return None


def bitor(dom, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    for x, y in ((a, b), (b, a)):
        d = domain2(dom, y)
        if d and d[0][0] >= 0 and d[-1][1] < INF:
            k = d[-1][1].bit_length()
            dx = domain2(dom, x)
            if dx and dx[0][0] >= 0 and lowbits_clear(dom, x, k):
                return add(x, y)
    if isinstance(a, int) or isinstance(b, int):
        c, y = (a, b) if isinstance(a, int) else (b, a)
        if c >= 0:
            x = bitand(dom, y, c)
            if x is not None:
                return sub(add(y, c), x)
    return None


def pw_val(t, x):
    for lo, hi, off in t[2]:
        if lo <= x <= hi:
            return x + off
    return None


def subst(t, atom, val):
    """replace an atom by an int in a term"""
    if isinstance(t, int):
        return t
    if t == atom:
        return val
    k = t[0]
    if k == 'lin':
        r = t[1]
        for a, c in t[2]:
            r = add(r, scale(subst(a, atom, val), c))
        return r
    if k == 'pw':
        return pw_val(t, val) if t[1] == atom else t
    if k == 'sel':
        i = subst(t[2], atom, val)
        return t[1][i] if isinstance(i, int) else ('sel', t[1], i)
    if k == 'op' and t[1] == 'Shr':
        i = subst(t[2], atom, val)
        return i >> t[3] if isinstance(i, int) else ('op', 'Shr', i, t[3])
    return t


def bitxor(dom, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int) or isinstance(b, int):
        c, y = (a, b) if isinstance(a, int) else (b, a)
        if c >= 0:
            x = bitand(dom, y, c)
            if x is not None:
                return sub(add(y, c), scale(x, 2))
    return None


OPS = {'And': lambda x, y: x & y, 'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y, 'Mul': lambda x, y: x * y}


def ev(t, env):
    """value of a term under an assignment of its leaves, or None"""
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    k = t[0]
    if k == 'lin':
        r = t[1]
        for a, c in t[2]:
            x = ev(a, env)
            if x is None:
                return None
            r += c * x
        return r
    if k == 'pw':
        x = ev(t[1], env)
        return None if x is None else pw_val(t, x)
    if k == 'sel':
        x = ev(t[2], env)
        return t[1][x] if x is not None and 0 <= x < len(t[1]) and isinstance(t[1][x], int) else None
    if k == 'not':
        x = ev(t[1], env)
        return None if x is None else 1 - x
    if k == 'cmp':
        x = ev(t[2], env)
        return None if x is None else int(bool(iand(((x, x),), CS[t[1]])))
    if k == 'op':
        if t[1] == 'Shr':
            x = ev(t[2], env)
            return None if x is None else x >> t[3]
        if t[1] == 'trunc':
            x = ev(t[3], env)
            return None if x is None else x & ((1 << t[2]) - 1)
        if t[1] in OPS or t[1] in ('Div', 'Rem'):
            x, y = ev(t[2], env), ev(t[3], env)
            if x is None or y is None:
                return None
            if t[1] in OPS:
                return OPS[t[1]](x, y)
            if y <= 0 or x < 0:
                return None
            return x // y if t[1] == 'Div' else x % y
    return None


def leaves(t, out):
    """the symbols a term is computed from; False if some operation cannot be evaluated"""
    if isinstance(t, int):
        return True
    k = t[0]
    if k == 'sym':
        out.add(t)
        return True
    if k == 'lin':
        return all([leaves(a, out) for a, _ in t[2]])
    if k in ('pw', 'not'):
        return leaves(t[1], out)
    if k in ('sel', 'cmp'):
        return leaves(t[2], out)
    if k == 'op':
        if t[1] == 'Shr':
            return leaves(t[2], out)
        if t[1] == 'trunc':
            return leaves(t[3], out)
        if t[1] in OPS or t[1] in ('Div', 'Rem'):
            return all([leaves(t[2], out), leaves(t[3], out)])
    return False


def witness(dom, need=(), pred=None, tries=4000):
    r = witnesses(dom, need, pred, tries, 1)
    return r[0] if r else None


def witnesses(dom, need=(), pred=None, tries=4000, n=1):
    """up to n assignments of the leaves under which every fact that shares a leaf with `need` holds, and pred(env)"""
    import random
    rnd = random.Random(7)
    vs = set()
    if not all([leaves(t, vs) for t in need]):
        return []
    rel, seen = [], set()
    todo = [(f, d) for f, d in dom.items() if f[0] != 'sym' or f in vs]
    grow = True
    while grow:
        grow = False
        for f, d in todo:
            if f in seen or f[0] == 'sym':
                continue
            l = set()
            okl = leaves(f, l)
            if l & vs or not okl and mentions(f, vs):
                if not okl:
                    return []
                seen.add(f)
                rel.append((f, d))
                if not l <= vs:
                    vs |= l
                    grow = True
    vs = sorted(vs, key=repr)
    ds = []
    for v in vs:
        d = dom.get(v)
        if not d or d[0][0] <= -INF or d[-1][1] >= INF:
            d = iand(d or TOP, ((0, 1 << 40),))
        if not d:
            return []
        ds.append(d)

    def pick(d):
        lo, hi = rnd.choice(d)
        return rnd.choice((lo, hi, rnd.randint(lo, hi)))
    out = []
    for _ in range(tries):
        env = {v: pick(d) for v, d in zip(vs, ds)}
        good = True
        for f, d in rel:
            x = ev(f, env)
            if x is None or not iand(((x, x),), d):
                good = False
                break
        if good and (pred is None or pred(env)):
            if env not in out:
                out.append(env)
            if len(out) == n:
                break
    return out


def mentions(t, vs):
    if t in vs:
        return True
    return isinstance(t, tuple) and any(mentions(x, vs) for x in t if isinstance(x, tuple))
