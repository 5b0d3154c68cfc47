"""Natives for collections, iterators and formatting."""
from . import terms as T
from .terms import is_term, is_scalar, domain, decide, restrict
from .core import Undecided, Panic, lit, cat, atoms_norm, cell_char, ISIZE_MAX
from .std import (N, nat, STR, SL, ret_ty, some, none, ok, err, deref, as_str, loc, newcell, rd, UNIT, next_char, clen,
                  range_bounds, char_bytes, utf16_units, rev_atoms)

V = 'std::vec::Vec::'
LL = 'std::collections::LinkedList::'
VD = 'std::collections::VecDeque::'
HM = 'std::collections::HashMap::'
BM = 'std::collections::BTreeMap::'


def V_(*ms):
    return [V + m for m in ms]


def seqplace(E, st, v):
    cell, path, x = loc(E, st, v)
    if x[0] != 'seq':
        raise Undecided('sequence expected: %s' % (str(x)[:60],))
    return cell, path, x


# ------------------------------------------------------------------ Vec / slice / LinkedList
@nat(V + 'new', LL + 'new', VD + 'new', V + 'from_elem')
def n_vnew(E, st, c, a):
    if a:
        return None
    return [(st, ('seq', ()))]


def alloc_bound(E, st, n, ety, what):
    """capacity overflow if n elements cannot be allocated at all: [(st, ok)]"""
    if isinstance(n, int):
        return [(st, n < (1 << 40))]
    if E.counter_like(n):
        return [(st, True)]
    lim = (1 << 58)
    out = []
    for s, i in E.split(st, n, [((0, lim),), ((lim + 1, T.INF),)]):
        out.append((s, i == 0))
    return out


def cap_panic(E, s):
    return Panic('capacity overflow at ' + E.user_where(s))


@nat(V + 'with_capacity', VD + 'with_capacity')
def n_vcap(E, st, c, a):
    ety = E.p.types[ret_ty(c)]['args'][0]
    return [(s, ('seq', ()) if b else cap_panic(E, s)) for s, b in alloc_bound(E, st, a[0], ety, 'with_capacity')]


@nat('std::vec::from_elem')
def n_from_elem(E, st, c, a):
    ety = c['gen'][0]
    out = []
    for s, b in alloc_bound(E, st, a[1], ety, 'vec!'):
        out.append((s, ('seq', E.seq_norm((('rep', a[0], a[1]),))) if b else cap_panic(E, s)))
    return out


@nat(*SL('into_vec', 'to_vec'))
def n_into_vec(E, st, c, a):
    v = deref(E, st, a[0])
    return [(st, v)]


@nat('std::slice::<impl [T]>::to_owned')
def n_sl_owned(E, st, c, a):
    return [(st, deref(E, st, a[0]))]


@nat(V + 'push', LL + 'push_back', VD + 'push_back')
def n_vpush(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    E.write(st, cell, path, ('seq', E.seq_norm(v[1] + (('e', a[1]),))))
    return [(st, UNIT)]


@nat(LL + 'push_front', VD + 'push_front')
def n_vpush_front(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    E.write(st, cell, path, ('seq', E.seq_norm((('e', a[1]),) + v[1])))
    return [(st, UNIT)]


def nonempty(E, st, v):
    return E.branch(st, T.cmp('Lt', 0, E.seq_len(v)))


@nat(V + 'pop', LL + 'pop_back', VD + 'pop_back')
def n_vpop(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    ty = ret_ty(c)
    out = []
    for s, b in nonempty(E, st, v):
        if not b:
            out.append((s, none(ty)))
            continue
        i = T.sub(E.seq_len(v), 1)
        for s2, val, segs in seq_take(E, s, v, i):
            E.write(s2, cell, path, ('seq', segs))
            out.append((s2, some(E, ty, val)))
    return out


@nat(LL + 'pop_front', VD + 'pop_front')
def n_vpop_front(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    ty = ret_ty(c)
    out = []
    for s, b in nonempty(E, st, v):
        if not b:
            out.append((s, none(ty)))
            continue
        for s2, val, segs in seq_take(E, s, v, 0):
            E.write(s2, cell, path, ('seq', segs))
            out.append((s2, some(E, ty, val)))
    return out


def seq_take(E, st, v, i):
    """remove element i (known < len): [(st, value, remaining segs)]"""
    out = []
    for s, k, off in E.seq_locate(st, v, i):
        sg = v[1][k]
        if sg[0] == 'e':
            out.append((s, sg[1], E.seq_norm(v[1][:k] + v[1][k + 1:])))
        else:
            pre, val, post = E.seg_split(s, sg, off)
            out.append((s, val, E.seq_norm(v[1][:k] + (pre, post) + v[1][k + 1:])))
    return out


def seq_ref(E, st, cell, path, v, i):
    """[(st, ref to element i | None)]"""
    out = []
    for s, b in E.branch(st, T.cmp('Lt', i, E.seq_len(v))):
        if not b:
            out.append((s, None))
            continue
        for s2, k, off in E.seq_locate(s, v, i):
            out.append((s2, ('ref', cell, path + (('idx', i),))))
    return out


from . import std as _std
_std.seq_ref = seq_ref


@nat(V + 'len', LL + 'len', VD + 'len', *SL('len'))
def n_vlen(E, st, c, a):
    return [(st, E.seq_len(seqplace(E, st, a[0])[2]))]


@nat(V + 'is_empty', LL + 'is_empty', VD + 'is_empty', *SL('is_empty'))
def n_vempty(E, st, c, a):
    return [(st, T.cmp('Eq', E.seq_len(seqplace(E, st, a[0])[2]), 0))]


@nat(V + 'capacity')
def n_vcapq(E, st, c, a):
    x = st.fresh('cap')
    E.setdom(st, x, ((0, ISIZE_MAX),))
    return [(st, x)]


@nat(V + 'clear', LL + 'clear', VD + 'clear')
def n_vclear(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    E.write(st, cell, path, ('seq', ()))
    return [(st, UNIT)]


@nat(V + 'truncate')
def n_vtrunc(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    out = []
    for s, b in E.branch(st, T.cmp('Lt', a[1], E.seq_len(v))):
        if b:
            E.write(s, cell, path, E.seq_sub(s, v, 0, a[1]))
        out.append((s, UNIT))
    return out


@nat(V + 'remove')
def n_vremove(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    out = []
    for s, b in E.branch(st, T.cmp('Lt', a[1], E.seq_len(v))):
        if not b:
            out.append((s, Panic('removal index out of range at ' + E.user_where(s))))
            continue
        for s2, val, segs in seq_take(E, s, v, a[1]):
            E.write(s2, cell, path, ('seq', segs))
            out.append((s2, val))
    return out


@nat(V + 'swap_remove')
def n_vswap_remove(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    out = []
    n = E.seq_len(v)
    for s, b in E.branch(st, T.cmp('Lt', a[1], n)):
        if not b:
            out.append((s, Panic('swap_remove index out of range at ' + E.user_where(s))))
            continue
        for s1, last in E.branch(s, T.cmp('Eq', a[1], T.sub(n, 1))):
            for s2, val, segs in seq_take(E, s1, v, a[1]):
                if last:
                    E.write(s2, cell, path, ('seq', segs))
                    out.append((s2, val))
                    continue
                for s3, lv, segs2 in seq_take(E, s2, v, T.sub(n, 1)):
                    l, r = E.seq_split_at(s3, ('seq', segs2), a[1])
                    _, r = E.seq_split_at(s3, ('seq', r), 1)
                    E.write(s3, cell, path, ('seq', E.seq_norm(l + (('e', lv),) + r)))
                    out.append((s3, val))
    return out


@nat(V + 'insert')
def n_vinsert(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    out = []
    for s, b in E.branch(st, T.cmp('Le', a[1], E.seq_len(v))):
        if not b:
            out.append((s, Panic('insertion index out of range at ' + E.user_where(s))))
            continue
        for s2, eq in E.branch(s, T.cmp('Eq', a[1], E.seq_len(v))):
            if eq:
                segs = v[1] + (('e', a[2]),)
            else:
                l, r = E.seq_split_at(s2, v, a[1])
                segs = l + (('e', a[2]),) + r
            E.write(s2, cell, path, ('seq', E.seq_norm(segs)))
            out.append((s2, UNIT))
    return out


@nat(V + 'resize')
def n_vresize(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    n = E.seq_len(v)
    out = []
    for s, b in E.branch(st, T.cmp('Le', a[1], n)):
        if b:
            for s2, eq in E.branch(s, T.cmp('Eq', a[1], n)):
                if not eq:
                    E.write(s2, cell, path, E.seq_sub(s2, v, 0, a[1]))
                out.append((s2, UNIT))
            continue
        for s2, okk in alloc_bound(E, s, a[1], None, 'resize'):
            if not okk:
                out.append((s2, cap_panic(E, s2)))
                continue
            E.write(s2, cell, path, ('seq', E.seq_norm(v[1] + (('rep', a[2], T.sub(a[1], n)),))))
            out.append((s2, UNIT))
    return out


@nat(V + 'resize_with')
def n_vresize_with(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    n = E.seq_len(v)
    out = []
    for s0, val in E.call_value(st.copy(), a[2], []):
        if isinstance(val, Panic):
            raise Undecided('resize_with')
        if not (isinstance(val, tuple) and val[0] == 'agg' and not val[3] or is_scalar(val)):
            raise Undecided('resize_with')
        return n_vresize(E, st, c, [a[0], a[1], val])


@nat(V + 'append', LL + 'append')
def n_vappend(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    cell2, path2, v2 = seqplace(E, st, a[1])
    E.write(st, cell, path, ('seq', E.seq_norm(v[1] + v2[1])))
    E.write(st, cell2, path2, ('seq', ()))
    return [(st, UNIT)]


@nat(V + 'extend_from_slice')
def n_vefs(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    E.write(st, cell, path, ('seq', E.seq_norm(v[1] + deref(E, st, a[1])[1])))
    return [(st, UNIT)]


@nat(V + 'split_off', LL + 'split_off')
def n_vsplit_off(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    out = []
    for s, b in E.branch(st, T.cmp('Le', a[1], E.seq_len(v))):
        if not b:
            out.append((s, Panic('split_off out of range at ' + E.user_where(s))))
            continue
        l, r = E.seq_split_at(s, v, a[1])
        E.write(s, cell, path, ('seq', E.seq_norm(l)))
        out.append((s, ('seq', E.seq_norm(r))))
    return out


@nat(*SL('get', 'get_mut'))
def n_slget(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    ty = ret_ty(c)
    if not is_scalar(a[1]):
        lo, hi = range_bounds(E, st, a[1])
        n = E.seq_len(v)
        hi = n if hi is None else hi
        out = []
        for s, b in E.branch(st, T.cmp('Le', hi, n)):
            for s2, b2 in E.branch(s, T.cmp('Le', lo, hi)) if b else [(s, False)]:
                out.append((s2, some(E, ty, ('ref', cell, path + (('slice', lo, hi),))) if b and b2 else none(ty)))
        return out
    return [(s, some(E, ty, r) if r is not None else none(ty)) for s, r in seq_ref(E, st, cell, path, v, a[1])]


@nat(*SL('first', 'first_mut'), LL + 'front', LL + 'front_mut', VD + 'front')
def n_first(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    ty = ret_ty(c)
    return [(s, some(E, ty, r) if r is not None else none(ty)) for s, r in seq_ref(E, st, cell, path, v, 0)]


@nat(*SL('last', 'last_mut'), LL + 'back', LL + 'back_mut', VD + 'back')
def n_last(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    ty = ret_ty(c)
    out = []
    for s, b in nonempty(E, st, v):
        if not b:
            out.append((s, none(ty)))
        else:
            out += [(s2, some(E, ty, r)) for s2, r in seq_ref(E, s, cell, path, v, T.sub(E.seq_len(v), 1))]
    return out


@nat(*SL('swap'))
def n_slswap(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    out = []
    for s, r in seq_ref(E, st, cell, path, v, a[1]):
        for s2, q in seq_ref(E, s, cell, path, v, a[2]) if r is not None else [(s, None)]:
            if r is None or q is None:
                out.append((s2, Panic('swap out of bounds at ' + E.user_where(s2))))
                continue
            x, y = E.read(s2, r[1], r[2]), E.read(s2, q[1], q[2])
            E.write(s2, r[1], r[2], y)
            E.write(s2, q[1], q[2], x)
            out.append((s2, UNIT))
    return out


def view_rev(X):
    if isinstance(X, tuple) and X and X[0] in ('refs', 'entrefs', 'keyrefs', 'valrefs'):
        return (X[0], view_rev(X[1]))
    if isinstance(X, tuple) and X and X[0] == 'rev':
        return X[1]
    return ('rev', X)


def segs_rev(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 't':
            if s[3] == 0:
                s = ('t', view_rev(s[1]), s[2], 0, s[4])
            else:
                raise Undecided('reversal of a part')
        out.append(s)
    return tuple(out)


@nat(*SL('reverse'))
def n_slrev(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    E.write(st, cell, path, ('seq', segs_rev(v[1])))
    return [(st, UNIT)]


@nat(*SL('contains'))
def n_slcontains(E, st, c, a):
    v = deref(E, st, a[0])
    x = deref(E, st, a[1])
    if all(s[0] == 'e' for s in v[1]) and is_scalar(x):
        cur = [(st, False)]
        for sg in v[1]:
            nxt = []
            for s, b in cur:
                nxt += [(s, True)] if b else E.branch(s, T.cmp('Eq', x, sg[1]))
            cur = nxt
        return [(s, int(b)) for s, b in cur]
    if all(s[0] == 'e' and isinstance(s[1], tuple) and s[1][0] == 'str' for s in v[1]) and isinstance(x, tuple) and x[0] == 'str':
        cur = [(st, False)]
        for sg in v[1]:
            nxt = []
            for s, b in cur:
                nxt += [(s, True)] if b else E.str_eq(s, x, sg[1])
            cur = nxt
        return [(s, int(b)) for s, b in cur]
    raise Undecided('contains')


@nat(*SL('concat'), 'std::slice::Concat::concat')
def n_concat(E, st, c, a):
    v = deref(E, st, a[0])
    return join(E, st, v, ())


@nat(*SL('join'), 'std::slice::Join::join')
def n_join(E, st, c, a):
    v = deref(E, st, a[0])
    return join(E, st, v, as_str(E, st, a[1]))


def join(E, st, v, sep):
    out = ()
    first = True
    segs = E.seq_norm(v[1])
    if any(s[0] != 'e' for s in segs):
        return [(st, ('str', (('join', str_segs(E, st, segs), sep),)))]
    for s in segs:
        if not first:
            out += sep
        out += as_str(E, st, s[1])
        first = False
    return [(st, ('str', atoms_norm(out)))]


def str_segs(E, st, segs):
    return tuple(('e', ('str', as_str(E, st, s[1]))) if s[0] == 'e' else s for s in segs)


# --- sorting
def as_strcmp(st, res):
    """the comparison of two texts, spelt out case by case"""
    seen = {}
    for s, v in res:
        new = [(k, d) for k, d in s.dom.items() if k not in st.dom and k[:2] != ('sym', 'has')]
        if any(k[:2] == ('sym', 'streq') and d == ((1, 1),) for k, d in new):
            continue                 # the keys of a map are not equal
        new = [(k, d) for k, d in new if k[:2] != ('sym', 'streq')]
        if len(new) != 1 or new[0][0][:2] != ('sym', 'discr') or new[0][0][2][0] != 'strcmp' or not isinstance(v, tuple):
            return None
        if not (v[0] == 'agg' or v[0] == 'opq' and v[2] == new[0][0][2]):
            return None
        for lo, hi in new[0][1]:
            for i in range(lo, hi + 1):
                seen.setdefault(new[0][0][2], {}).setdefault(i, set()).add(v[2] if v[0] == 'agg' else i)
    if len(seen) != 1:
        return None
    (t, m), = seen.items()
    m.pop(1, None)           # the keys of a map are not equal
    if m == {0: {0}, 2: {2}}:
        return t
    if m == {0: {2}, 2: {0}}:
        return ('strcmp', t[2], t[1])
    return None


def by_length(k, d):
    """a fact that looks at nothing but lengths of texts (that one is empty says more: the empty text comes first)"""
    if isinstance(k, tuple) and k[:2] == ('sym', 'slen'):
        return d[-1][1] > 0
    if isinstance(k, tuple):
        return k[:1] != ('sym',) and all(by_length(x, ((1, 1),)) for x in k)
    return isinstance(k, (int, str))


def order_of(E, st, X, ety, f, keyf=None):
    """canonical description of the order a comparator imposes on generic elements of view X"""
    s = st.copy()
    s.mon = {}
    mon, E.monitor = E.monitor, None
    try:
        vals = []
        for tag in ('a', 'b'):
            vals.append(mat(E, s, X, ety, ('el', base_of(X), tag)))
        if keyf is not None:
            ks = []
            for v in vals:
                r = E.call_value(s, keyf, [('ref', newcell(s, v), ())])
                if len(r) != 1 or isinstance(r[0][1], Panic):
                    raise Undecided('sort key')
                s, k = r[0]
                k = deref(E, s, k)
                ks.append(k)
            if ks[0][0] == 'str':
                return ('strcmp', ks[0][1], ks[1][1])
            raise Undecided('sort key')
        if f is None:
            x, y = (deref(E, s, v) for v in vals)
            if isinstance(x, tuple) and x[0] == 'str':
                return ('strcmp', x[1], y[1])
            raise Undecided('natural order')
        res = E.call_value(s, f, [('ref', newcell(s, vals[0]), ()), ('ref', newcell(s, vals[1]), ())])
        if len(res) == 1 and not isinstance(res[0][1], Panic) and res[0][1][0] == 'opq':
            return res[0][1][2]
        sc = as_strcmp(st, res)
        if sc is not None:
            return sc
        if all(isinstance(r[1], tuple) and r[1][0] == 'agg' for r in res):
            return ('cmpfn',) + tuple(sorted(set((r[1][2], repr(sorted((k, d) for k, d in r[0].dom.items() if k not in st.dom))) for r in res)))
        for s1, v in res:
            new = [k for k in s1.dom if k not in st.dom and k[:2] != ('sym', 'has')]
            if isinstance(v, tuple) and v[0] == 'agg' and new and all(by_length(k, s1.dom[k]) for k in new):
                return ('cmpfn', v[2], repr(sorted((k, s1.dom[k]) for k in new)))    # an order of its own
        raise Undecided('comparator')
    finally:
        E.monitor = mon


def base_of(X):
    """the element stream of a view"""
    while isinstance(X, tuple) and X and X[0] in ('refs', 'entrefs', 'keyrefs', 'valrefs', 'cl'):
        X = X[1]
    return X


def rewrap(X, f):
    if isinstance(X, tuple) and X and X[0] in ('refs', 'entrefs', 'keyrefs', 'valrefs', 'cl'):
        return (X[0], rewrap(X[1], f))
    return f(X)


@nat(*SL('sort_by', 'sort_unstable_by', 'sort', 'sort_unstable', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'))
def n_sort(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    m = c['sdef'].split('::')[-1]
    segs = E.seq_norm(v[1])
    if len(segs) == 0 or (len(segs) == 1 and segs[0][0] == 'e'):
        return [(st, UNIT)]
    if len(segs) == 1 and segs[0][0] == 't' and segs[0][3] == 0:
        _, X, ety, lo, hi = segs[0]
        f = a[1] if m in ('sort_by', 'sort_unstable_by') else None
        keyf = a[1] if m in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key') else None
        desc = order_of(E, st, X, ety, f, keyf)
        Y = rewrap(X, lambda b: ('sorted', b, desc))
        E.write(st, cell, path, ('seq', (('t', Y, ety, 0, hi),)))
        return [(st, UNIT)]
    raise Undecided('sort of a built sequence')


# ------------------------------------------------------------------ elements of views
def map_of(Y):
    """the map an entry stream ranges over"""
    while isinstance(Y, tuple) and Y and Y[0] in ('rev', 'sorted'):
        Y = Y[1]
    if isinstance(Y, tuple) and Y and Y[0] == 'ents':
        return Y[1], Y[2], Y[3]
    raise Undecided('entry stream')


def entry(E, st, Y, e):
    """(key value, value cell) of entry element e"""
    M, kty, vty = map_of(Y)
    k = E.fresh_opaque(st, kty, ('key', e))
    if k[0] == 'str':
        kk = k[1]
    else:
        kk = k
    has = ('sym', 'has', M, kk)
    if has not in st.dom:
        st.dom = dict(st.dom)
        st.dom[has] = ((1, 1),)
    return k, kk, ('o', ('val', M, kk), vty)


def mat(E, st, X, ety, e):
    """the value of element e of view X"""
    if isinstance(X, tuple) and X:
        if X[0] == 'cl':
            v = mat(E, st, X[1], None, e)
            return E.read(st, v[1], v[2]) if v[0] == 'ref' else v
        if X[0] == 'refs':
            Y = X[1]
            if isinstance(Y, tuple) and Y and Y[0] in ('refs', 'entrefs', 'keyrefs', 'valrefs'):
                return ('ref', newcell(st, mat(E, st, Y, None, e)), ())
            t = E.p.types[ety]
            if t['k'] == 'ref' and E.p.types[t['elem']]['k'] != 'str':
                inner = t['elem']
                it = E.p.types[inner]
                return ('ref', ('o', e, inner), ())
            raise Undecided('view')
        if X[0] == 'entrefs':
            k, kk, cell = entry(E, st, X[1], e)
            t = E.p.types[ety] if ety is not None else None
            kv = ('ref', ('o', ('key', e), map_of(X[1])[1]), ())
            return ('agg', ety, 0, (kv, ('ref', cell, ())))
        if X[0] == 'keyrefs':
            entry(E, st, X[1], e)
            return ('ref', ('o', ('key', e), map_of(X[1])[1]), ())
        if X[0] == 'valrefs':
            return ('ref', entry(E, st, X[1], e)[2], ())
        if X[0] in ('ents',) or (X[0] in ('rev', 'sorted') and is_ents(X)):
            k, kk, cell = entry(E, st, X, e)
            return ('agg', ety, 0, (k, E.read(st, cell, ())))
    return E.fresh_opaque(st, ety, e)


def is_ents(X):
    while isinstance(X, tuple) and X and X[0] in ('rev', 'sorted'):
        X = X[1]
    return isinstance(X, tuple) and bool(X) and X[0] == 'ents'


def peek_el(E, st, X, pos):
    """[(st, exists)]"""
    B = base_of(X)
    known, ended, sh = st.streams.get(B, (0, 0, 0))
    if pos < known:
        return [(st, True)]
    if pos > known:
        raise Undecided('stream gap')
    if ended:
        return [(st, False)]
    n = len_of(B)
    a, b = st.copy(), st.copy()
    outs = []
    d = domain(a.dom, n) if n in a.dom else None
    yes = no = True
    if not sh and d is not None:
        nd = restrict(a.dom, n, ((pos + 1, ISIZE_MAX),))
        if nd is None:
            yes = False
        else:
            a.dom = nd
        nd = restrict(b.dom, n, ((pos, pos),))
        if nd is None:
            no = False
        else:
            b.dom = nd
    if yes:
        a.streams[B] = (known + 1, 0, sh)
        outs.append((a, True))
    if no:
        b.streams[B] = (known, 1, sh)
        outs.append((b, False))
    return outs


def len_of(B):
    while isinstance(B, tuple) and B and B[0] in ('rev', 'sorted'):
        B = B[1]
    if isinstance(B, tuple) and B and B[0] == 'ents':
        return ('sym', 'mlen', B[1])
    return ('sym', 'len', B)


# ------------------------------------------------------------------ iterators over containers
def items_of(E, st, segs, cell, path, mode):
    """mode: ref (shared), mut, val"""
    out = []
    base = 0
    for s in segs:
        n = E.seg_len(s)
        if s[0] == 'e':
            if mode == 'val':
                out.append(('r', s[1]))
            else:
                out.append(('r', ('ref', cell, path + (('idx', base),))))
        elif s[0] == 't':
            hi = 'E' if s[4] == len_of(base_of(s[1])) else s[4]
            if mode == 'mut':
                raise Undecided('iter_mut over an unknown sequence')
            if not isinstance(s[3], int) or hi != 'E' and not isinstance(hi, int):
                raise Undecided('iteration over a part of a sequence')
            if hi == 'E' and st.streams.get(base_of(s[1]), (0, 0, 0))[2]:
                raise Undecided('second pass over a collection')
            out.append(('ts', s[1], s[2], s[3], hi, mode))
        elif s[0] == 'rep':
            if isinstance(s[2], int) and s[2] <= 16 and mode == 'val':
                out += [('r', s[1])] * s[2]
            elif isinstance(s[2], int) and s[2] <= 16:
                out += [('r', ('ref', cell, path + (('idx', T.add(base, j)),))) for j in range(s[2])]
            else:
                raise Undecided('iteration over a repetition')
        base = T.add(base, n)
    return tuple(out)


@nat(*SL('iter'), V + 'iter', LL + 'iter', VD + 'iter',
     "<&std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
     "<&'a std::collections::LinkedList<T, A> as std::iter::IntoIterator>::into_iter",
     "<&std::collections::LinkedList<T, A> as std::iter::IntoIterator>::into_iter")
def n_iter(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    return [(st, ('it', items_of(E, st, v[1], cell, path, 'ref')))]


@nat(*SL('iter_mut'), V + 'iter_mut', LL + 'iter_mut')
def n_iter_mut(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    return [(st, ('it', items_of(E, st, v[1], cell, path, 'mut')))]


@nat('std::iter::IntoIterator::into_iter')
def n_into_iter(E, st, c, a):
    v = a[0]
    if v[0] in ('it', 'chars', 'bytes', 'chind', 'utf16'):
        return [(st, v)]
    if v[0] == 'seq':
        return [(st, ('it', items_of(E, st, v[1], None, None, 'val')))]
    if v[0] == 'map':
        return [(st, ('it', map_items(E, st, v, 'val')))]
    if v[0] == 'ref':
        x = E.read(st, v[1], v[2])
        if x[0] == 'seq':
            cell, path, x = seqplace(E, st, v)
            return [(st, ('it', items_of(E, st, x[1], cell, path, 'ref')))]
        if x[0] == 'map':
            return [(st, ('it', map_items(E, st, x, 'ref', v)))]
    if v[0] == 'agg':
        return None
    return None


def map_items(E, st, m, mode, ref=None, kind='entrefs'):
    if m[1] is None:
        if not m[2]:
            return ()
        if len([u for u in m[2] if u[1]]) == 1:
            for k, p, val in m[2]:
                if p:
                    if mode == 'val':
                        return (('r', ('agg', None, 0, (('str', k), val))),)
                    kc = newcell(st, ('str', k))
                    vr = ('ref', ref[1], ref[2] + (('key', k),))
                    kr = ('ref', kc, ())
                    return (('r', {'entrefs': ('agg', None, 0, (kr, vr)), 'keyrefs': kr, 'valrefs': vr}[kind]),)
        raise Undecided('iteration over a built map')
    if m[2]:
        raise Undecided('iteration over an updated map')
    Y = ('ents', m[1], m[3], m[4])
    if st.streams.get(Y, (0, 0, 0))[2]:
        raise Undecided('second pass over a collection')
    return (('ts', Y if mode == 'val' else (kind, Y), None, 0, 'E', 'elem'),)


def _miter(kind):
    def f(E, st, c, a):
        cell, path, m = loc(E, st, a[0])
        return [(st, ('it', map_items(E, st, m, 'ref', ('ref', cell, path), kind)))]
    return f


for _m in (HM, BM):
    N[_m + 'iter'] = _miter('entrefs')
    N[_m + 'keys'] = _miter('keyrefs')
    N[_m + 'values'] = _miter('valrefs')


def it_item(E, st, X, ety, e, mode, item_ty):
    if mode == 'val':
        return mat(E, st, X, ety, e)
    if mode == 'elem':
        # map entries: the item itself
        return mat(E, st, X, item_ty, e)
    # a reference to an element
    if isinstance(X, tuple) and X and X[0] in ('refs', 'entrefs', 'keyrefs', 'valrefs', 'cl'):
        return ('ref', newcell(st, mat(E, st, X, ety, e)), ())
    if is_ents(X):
        return ('ref', newcell(st, mat(E, st, X, ety, e)), ())
    return ('ref', ('o', e, ety), ())


def it_next(E, st, ref, item_ty):
    """advance an iterator place: [(st, item | None)]"""
    cell, path, v = loc(E, st, ref)
    out = []
    work = [(st, v[1])]
    while work:
        s, items = work.pop()
        if not items:
            E.write(s, cell, path, ('it', ()))
            out.append((s, None))
            continue
        i = items[0]
        if i[0] == 'r':
            E.write(s, cell, path, ('it', items[1:]))
            out.append((s, i[1]))
            continue
        _, X, ety, pos, hi, mode = i
        if pos == 'P':
            raise Undecided('restart of a partly consumed iterator')
        if hi != 'E':
            if pos >= hi:
                work.append((s, items[1:]))
                continue
            E.write(s, cell, path, ('it', (('ts', X, ety, pos + 1, hi, mode),) + items[1:]))
            out.append((s, it_item(E, s, X, ety, ('at', base_of(X), pos), mode, item_ty)))
            continue
        for s2, ex in peek_el(E, s, X, pos):
            if not ex:
                work.append((s2, items[1:]))
                continue
            E.write(s2, cell, path, ('it', (('ts', X, ety, pos + 1, 'E', mode),) + items[1:]))
            out.append((s2, it_item(E, s2, X, ety, ('el', base_of(X), pos), mode, item_ty)))
    return out


def item_type(E, c):
    t = E.p.types[ret_ty(c)]
    return t['args'][0]


@nat('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def n_next(E, st, c, a):
    try:
        cell, path, v = loc(E, st, a[0])
    except Undecided:
        return None
    if not isinstance(v, tuple) or not v:
        return None
    ty = ret_ty(c)
    back = c['sdef'].endswith('next_back') or (v[0] in ('chars', 'it', 'bytes') and c['sdef'].endswith('next_back'))
    if v[0] == 'chars':
        if back:
            E.write(st, cell, path, ('chars', rev_atoms(E, st, v[1])))
            out = []
            for s, ch in next_char(E, st, ('ref', cell, path)):
                x = E.read(s, cell, path)
                E.write(s, cell, path, ('chars', rev_atoms(E, s, x[1])))
                out.append((s, none(ty) if ch is None else some(E, ty, ch)))
            return out
        return [(s, none(ty) if ch is None else some(E, ty, ch)) for s, ch in next_char(E, st, a[0])]
    if v[0] == 'chind':
        out = []
        for s, x in E.uncons(st, v[1]):
            if x is None:
                out.append((s, none(ty)))
                continue
            for s2, w in clen(E, s, x[0]):
                E.write(s2, cell, path, ('chind', x[1], T.add(v[2], w)))
                out.append((s2, some(E, ty, ('agg', E.p.types[ty]['args'][0], 0, (v[2], x[0])))))
        return out
    if v[0] in ('bytes', 'utf16'):
        if v[1]:
            E.write(st, cell, path, (v[0], v[1][1:], v[2]))
            return [(st, some(E, ty, v[1][0]))]
        out = []
        for s, x in E.uncons(st, v[2]):
            if x is None:
                E.write(s, cell, path, (v[0], (), ()))
                out.append((s, none(ty)))
                continue
            for s2, us in (char_bytes if v[0] == 'bytes' else utf16_units)(E, s, x[0]):
                E.write(s2, cell, path, (v[0], tuple(us[1:]), x[1]))
                out.append((s2, some(E, ty, us[0])))
        return out
    if v[0] == 'it':
        if back:
            E.write(st, cell, path, ('it', rev_items(v[1])))
            out = []
            for s, x in it_next(E, st, ('ref', cell, path), item_type(E, c)):
                y = E.read(s, cell, path)
                E.write(s, cell, path, ('it', rev_items(y[1])))
                out.append((s, none(ty) if x is None else some(E, ty, x)))
            return out
        return [(s, none(ty) if x is None else some(E, ty, x)) for s, x in it_next(E, st, a[0], item_type(E, c))]
    return None


def rev_items(items):
    out = []
    for i in reversed(items):
        if i[0] == 'ts':
            if i[4] != 'E':
                raise Undecided('reverse iteration over a part')
            if i[3] != 0 and not (isinstance(i[1], tuple) and base_of(i[1])[0:1] == ('rev',)):
                raise Undecided('iteration from both ends')
            i = ('ts', view_rev(i[1]), i[2], i[3], i[4], i[5])
        out.append(i)
    return tuple(out)


@nat('std::iter::Iterator::rev')
def n_rev(E, st, c, a):
    v = a[0]
    if v[0] == 'it':
        if all(i[0] == 'r' or i[3] == 0 for i in v[1]):
            return [(st, ('it', rev_items(v[1])))]
        raise Undecided('rev of a partly consumed iterator')
    if v[0] == 'chars':
        return [(st, ('chars', rev_atoms(E, st, v[1])))]
    return None


@nat("std::str::Chars::as_str", "<std::str::Chars<'a>>::as_str")
def n_chars_as_str(E, st, c, a):
    v = deref(E, st, a[0])
    return [(st, ('str', v[1]))]


@nat('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def n_cloned(E, st, c, a):
    v = a[0]
    if v[0] == 'it' and all(i[0] == 'r' for i in v[1]):
        return [(st, ('it', tuple(('r', rd(E, st, i[1])) for i in v[1])))]
    if v[0] == 'it' and all(i[0] == 'ts' and i[5] == 'ref' and i[4] == 'E' and not is_ents(i[1]) for i in v[1]):
        # elements by value
        return [(st, ('it', tuple(('ts', i[1], i[2], i[3], i[4], 'val') for i in v[1])))]
    return None


@nat('std::iter::Iterator::size_hint')
def n_size_hint(E, st, c, a):
    rt = ret_ty(c)
    ot = E.p.types[rt]['elems'][1]
    x = st.fresh('hint')
    E.setdom(st, x, ((0, ISIZE_MAX),))
    return [(st, ('agg', rt, 0, (x, none(ot))))]


@nat('std::iter::Iterator::by_ref')
def n_by_ref(E, st, c, a):
    return [(st, a[0])]


@nat('std::iter::ExactSizeIterator::len')
def n_itlen(E, st, c, a):
    v = deref(E, st, a[0])
    if v[0] == 'it':
        n = 0
        for i in v[1]:
            if i[0] == 'r':
                n = T.add(n, 1)
            elif i[3] == 0 and i[4] == 'E':
                n = T.add(n, len_of(base_of(i[1])))
            else:
                raise Undecided('length of a partly consumed iterator')
        return [(st, n)]
    return None


# --- collecting base iterators without a loop
def it_segs(E, st, v, item_ty):
    """segments of everything an iterator value yields, or None"""
    if v[0] == 'it':
        out = []
        for i in v[1]:
            if i[0] == 'r':
                out.append(('e', i[1]))
            else:
                _, X, ety, pos, hi, mode = i
                if hi != 'E' or pos != 0:
                    return None
                B = base_of(X)
                n = len_of(B)
                if n not in st.dom:
                    E.setdom(st, n, ((0, ISIZE_MAX),))
                if st.streams.get(B, (0, 0, 0)) != (0, 0, 0):
                    k, e, sh = st.streams[B]
                    if not (e and not sh):
                        return None
                if mode == 'ref':
                    X = ('refs', X)
                out.append(('t', X, item_ty, 0, n))
        return tuple(out)
    return None


def iter_item_ty(E, c, v):
    """item type from the callee's generics: the collection's element type"""
    return None


@nat('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter', 'vroots::models::m_vec_from_iter')
def n_vfrom_iter(E, st, c, a):
    v = a[0]
    ety = E.p.types[ret_ty(c)]['args'][0]
    if v[0] == 'ref':
        return None
    if v[0] in ('seq',):
        return [(st, v)]
    segs = it_segs(E, st, v, ety)
    if segs is not None:
        return [(st, ('seq', E.seq_norm(segs)))]
    if v[0] == 'chars' and not v[1]:
        return [(st, ('seq', ()))]
    return None


@nat('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', 'vroots::models::m_vec_extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def n_vextend(E, st, c, a):
    cell, path, v = seqplace(E, st, a[0])
    x = a[1]
    ety = c['gen'][0]
    if x[0] == 'seq':
        E.write(st, cell, path, ('seq', E.seq_norm(v[1] + x[1])))
        return [(st, UNIT)]
    if x[0] == 'ref':
        y = deref(E, st, x)
        if y[0] == 'seq' and E.p.types[ety]['k'] != 'ref':
            E.write(st, cell, path, ('seq', E.seq_norm(v[1] + y[1])))
            return [(st, UNIT)]
        if y[0] == 'seq':
            cl, pa, y = seqplace(E, st, x)
            x = ('it', items_of(E, st, y[1], cl, pa, 'ref'))
    segs = it_segs(E, st, x, ety)
    if segs is None:
        return None
    E.write(st, cell, path, ('seq', E.seq_norm(v[1] + segs)))
    return [(st, UNIT)]


@nat('<std::string::String as std::iter::FromIterator<char>>::from_iter', 'vroots::models::m_string_from_chars')
def n_sfrom_iter(E, st, c, a):
    v = a[0]
    if v[0] == 'it' and all(i[0] == 'r' for i in v[1]):
        return [(st, ('str', atoms_norm(tuple(('ch', i[1]) for i in v[1]))))]
    if v[0] == 'chars':
        return [(st, ('str', atoms_norm(v[1])))]
    return None


@nat("<std::string::String as std::iter::FromIterator<&'a char>>::from_iter")
def n_sfrom_iter2(E, st, c, a):
    v = a[0]
    if v[0] == 'it' and all(i[0] == 'r' for i in v[1]):
        return [(st, ('str', atoms_norm(tuple(('ch', rd(E, st, i[1])) for i in v[1]))))]
    return None


# ------------------------------------------------------------------ maps
def mapplace(E, st, v):
    cell, path, m = loc(E, st, v)
    if m[0] != 'map':
        raise Undecided('map expected: %s' % (str(m)[:60],))
    return cell, path, m


def key_of(E, st, v):
    x = deref(E, st, v) if isinstance(v, tuple) and v[0] in ('ref',) else v
    if isinstance(x, tuple) and x[0] == 'str':
        return E.flat(st, x[1])
    return ('K', x)


@nat(HM + 'new', HM + 'with_capacity', HM + 'default', BM + 'new')
def n_mnew(E, st, c, a):
    t = E.p.types[ret_ty(c)]
    out = []
    for s, b in alloc_bound(E, st, a[0], None, 'map') if a else [(st, True)]:
        out.append((s, ('map', None, (), t['args'][0], t['args'][1]) if b else cap_panic(E, s)))
    return out


def map_get(E, st, a):
    cell, path, m = mapplace(E, st, a[0])
    k = key_of(E, st, a[1])
    return [(s, ('ref', cell, path + (('key', kk),)) if kk is not None else None) for s, kk in E.map_lookup(st, m, k)]


_std.map_get = map_get


@nat(HM + 'get', HM + 'get_mut', BM + 'get', BM + 'get_mut')
def n_mget(E, st, c, a):
    ty = ret_ty(c)
    return [(s, some(E, ty, r) if r is not None else none(ty)) for s, r in map_get(E, st, a)]


@nat(HM + 'contains_key', BM + 'contains_key')
def n_mcontains(E, st, c, a):
    return [(s, int(r is not None)) for s, r in map_get(E, st, a)]


@nat(HM + 'insert', BM + 'insert')
def n_minsert(E, st, c, a):
    cell, path, m = mapplace(E, st, a[0])
    k = key_of(E, st, a[1])
    ty = ret_ty(c)
    out = []
    for s, kk in E.map_lookup(st, m, k):
        old = None if kk is None else E.map_entry(s, m, kk)
        E.write(s, cell, path, E.map_put(m, k if kk is None else kk, a[2]))
        out.append((s, none(ty) if old is None else some(E, ty, old)))
    return out


@nat(HM + 'remove', BM + 'remove')
def n_mremove(E, st, c, a):
    cell, path, m = mapplace(E, st, a[0])
    k = key_of(E, st, a[1])
    ty = ret_ty(c)
    out = []
    for s, kk in E.map_lookup(st, m, k):
        if kk is None:
            out.append((s, none(ty)))
            continue
        old = E.map_entry(s, m, kk)
        E.write(s, cell, path, E.map_del(m, kk))
        out.append((s, some(E, ty, old)))
    return out


@nat(HM + 'remove_entry', HM + 'get_key_value', HM + 'get_or_insert_with')
def n_mremove_entry(E, st, c, a):
    raise Undecided(c['sdef'])


@nat(HM + 'clear', BM + 'clear')
def n_mclear(E, st, c, a):
    cell, path, m = mapplace(E, st, a[0])
    E.write(st, cell, path, ('map', None, (), m[3], m[4]))
    return [(st, UNIT)]


def map_len(E, st, m):
    """number of entries: [(st, n)]"""
    cur = [(st, 0)]
    if m[1] is not None:
        x = ('sym', 'mlen', m[1])
        E.setdom(st, x, ((0, ISIZE_MAX),))
        cur = [(st, x)]
    for k, p, v in m[2]:
        nxt = []
        for s, n in cur:
            if m[1] is None:
                nxt.append((s, T.add(n, 1 if p else 0)))
                continue
            has = ('sym', 'has', m[1], k)
            E.setdom(s, has, ((0, 1),))
            for s2, b in E.branch(s, has):
                nxt.append((s2, T.add(n, p - int(b))))
        cur = nxt
    return cur


@nat(HM + 'len', BM + 'len')
def n_mlen(E, st, c, a):
    return map_len(E, st, mapplace(E, st, a[0])[2])


@nat(HM + 'is_empty', BM + 'is_empty')
def n_mempty(E, st, c, a):
    m = mapplace(E, st, a[0])[2]
    if any(p for _, p, _ in m[2]):
        return [(st, 0)]
    return [(s, T.cmp('Eq', n, 0)) for s, n in map_len(E, st, m)]


# --- entry API
@nat(HM + 'entry', BM + 'entry')
def n_mentry(E, st, c, a):
    cell, path, m = mapplace(E, st, a[0])
    k = key_of(E, st, a[1])
    ty = ret_ty(c)
    vs = E.p.types[ty]['variants']
    occ = [i for i, v in enumerate(vs) if v['name'] == 'Occupied'][0]
    out = []
    for s, kk in E.map_lookup(st, m, k):
        if kk is None:
            out.append((s, ('agg', ty, 1 - occ, (('ent', cell, path, k),))))
        else:
            out.append((s, ('agg', ty, occ, (('ent', cell, path, kk),))))
    return out


def entv(E, st, v):
    v = deref(E, st, v)
    if v[0] != 'ent':
        raise Undecided('map entry')
    return v


OE = ['std::collections::hash_map::OccupiedEntry::', 'std::collections::btree_map::OccupiedEntry::']
VE = ['std::collections::hash_map::VacantEntry::', 'std::collections::btree_map::VacantEntry::']


@nat(*[o + m for o in OE for m in ('get', 'get_mut', 'into_mut')])
def n_oe_get(E, st, c, a):
    e = entv(E, st, a[0])
    return [(st, ('ref', e[1], e[2] + (('key', e[3]),)))]


@nat(*[o + 'insert' for o in OE])
def n_oe_insert(E, st, c, a):
    e = entv(E, st, a[0])
    old = E.read(st, e[1], e[2] + (('key', e[3]),))
    E.write(st, e[1], e[2], E.map_put(E.read(st, e[1], e[2]), e[3], a[1]))
    return [(st, old)]


@nat(*[o + 'remove' for o in OE])
def n_oe_remove(E, st, c, a):
    e = entv(E, st, a[0])
    old = E.read(st, e[1], e[2] + (('key', e[3]),))
    E.write(st, e[1], e[2], E.map_del(E.read(st, e[1], e[2]), e[3]))
    return [(st, old)]


@nat(*[o + 'insert' for o in VE])
def n_ve_insert(E, st, c, a):
    e = entv(E, st, a[0])
    E.write(st, e[1], e[2], E.map_put(E.read(st, e[1], e[2]), e[3], a[1]))
    return [(st, ('ref', e[1], e[2] + (('key', e[3]),)))]


@nat(*[o + 'key' for o in OE + VE])
def n_e_key(E, st, c, a):
    e = entv(E, st, a[0])
    return [(st, ('ref', newcell(st, ('str', e[3])), ()))]


# ------------------------------------------------------------------ formatting
def bytes_of(E, st, v):
    v = deref(E, st, v)
    if v[0] == 'seq':
        return bytes(s[1] for s in v[1])
    raise Undecided('format template')


def parse_template(b):
    out = []
    i = 0
    argn = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(('lit', b[i:i + x].decode('utf-8')))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(('lit', b[i + 2:i + 2 + n].decode('utf-8')))
            i += 2 + n
        else:
            fl = wd = pr = None
            if x & 1:
                fl = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if x & 2:
                wd = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if x & 4:
                pr = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if x & 8:
                argn = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if x & 0x30:
                raise Undecided('indirect width')
            out.append(('arg', argn, (fl, wd, pr)))
            argn += 1
    return out


@nat('std::fmt::Arguments::new', "std::fmt::Arguments<'a>::new", 'core::fmt::Arguments::new',
     'core::fmt::rt::<impl std::fmt::Arguments<\'_>>::new', 'std::fmt::rt::<impl std::fmt::Arguments<\'_>>::new')
def n_args_new(E, st, c, a):
    t = parse_template(bytes_of(E, st, a[0]))
    args = deref(E, st, a[1])
    ps = []
    for x in t:
        if x[0] == 'lit':
            ps.append(x)
        else:
            ps.append(('arg', args[1][x[1]][1], x[2]))
    return [(st, ('fmtargs', tuple(ps)))]


@nat('std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst', 'std::fmt::Arguments::new_const')
def n_args_str(E, st, c, a):
    if a[0][0] == 'str':
        return [(st, ('fmtargs', (('lits', a[0][1]),)))]
    return None


for _k in ('display', 'debug', 'lower_hex', 'upper_hex', 'octal', 'binary', 'lower_exp', 'upper_exp', 'pointer'):
    def _mkfa(k):
        def f(E, st, c, a):
            key = None
            for b in c.get('blocks', []):
                for s in b['s']:
                    if s[0] == '=':
                        key = key or find_fmt(E, s[2])
                if b['t'][0] == 'call':
                    for o in b['t'][2]:
                        key = key or find_fmt(E, ['use', o])
            return [(st, ('fmtarg', k, a[0], key, c['gen'][0] if c['gen'] else None))]
        return f
    for _p in ('core::fmt::rt::Argument::new_', 'std::fmt::rt::Argument::new_'):
        N[_p + _k] = _mkfa(_k)


def find_fmt(E, r):
    if not isinstance(r, list):
        return None
    if len(r) == 3 and r[0] == 'k' and isinstance(r[1], int):
        t = E.p.types[r[1]]
        if t['k'] == 'fndef' and t.get('inst') and t['def'].endswith('::fmt'):
            return t['inst']
    for x in r:
        if isinstance(x, list):
            k = find_fmt(E, x)
            if k:
                return k
    return None


def fmt_value(E, st, kind, ref, key, ty, spec):
    """[(st, atoms)] for one formatted argument"""
    t = E.p.types[ty]
    fl, wd, pr = spec
    plain = wd is None and pr is None and (fl is None or fl & 0x0FE00000 in (0, 0x0FE00000) and fl & 0x1F == 0) or spec == (None, None, None)
    v = rd(E, st, ref) if ref[0] == 'ref' else ref
    while t['k'] == 'ref' and kind in ('display', 'debug', 'lower_hex', 'upper_hex'):
        ty = t['elem']
        t = E.p.types[ty]
        if t['k'] == 'str':
            break
        ref = v
        v = rd(E, st, ref)
    if kind == 'display':
        if isinstance(v, tuple) and v[0] == 'str':
            if not plain:
                return [(st, (('disp', 'padded', v[1], spec),))]
            return [(st, v[1])]
        if t['k'] == 'char':
            return [(st, atoms_norm((('ch', v),)))] if plain else [(st, (('disp', 'padded', v, spec),))]
        if t['k'] in ('int', 'uint'):
            if isinstance(v, int) and plain:
                return [(st, (('lit', str(v)),))]
            return [(st, (('disp', 'int', v, spec if not plain else None),))]
        if t['k'] == 'float':
            x = v
            return [(st, (('disp', 'f%d' % t['bits'], x[1], spec if not plain else None),))]
        if t['k'] == 'bool':
            out = []
            for s, b in E.branch(st, v):
                out.append((s, (('lit', 'true' if b else 'false'),)))
            return out
        if v[0] == 'fmtargs':
            return render(E, st, v)
    if kind in ('lower_hex', 'upper_hex') and t['k'] in ('uint', 'int', 'char'):
        return hex_fmt(E, st, v, kind == 'upper_hex', fl, wd, pr)
    h = E.hooks.get('fmt')
    if h:
        r = h(E, st, kind, ref, ty)
        if r is not None:
            return r
    if key is not None and kind == 'display':
        k2 = key
        f = E.p.fns.get(k2)
        if f is None or not E.p.local(f) or 'blocks' not in f:
            k2 = display_impl(E, ty, None)
            f = E.p.fns.get(k2) if k2 else None
            if f is None:
                return [(st, (('disp', kind, E.p.types[ty]['str'], T.akey(v)[:200], spec),))]
        if E.p.types[ty]['k'] == 'adt' and E.p.local(f) and 'blocks' in f:
            fc = newcell(st, ('fmtr', (), spec))
            out = []
            for s, r in E.call_sub(st, k2, [ref if ref[0] == 'ref' else ref, ('ref', fc, ())]):
                if isinstance(r, Panic):
                    out.append((s, r))
                else:
                    out.append((s, E.read(s, fc, ())[1]))
            return out
    return [(st, (('disp', kind, E.p.types[ty]['str'], T.akey(v)[:200], spec),))]


def hex_fmt(E, st, v, upper, fl, wd, pr):
    tab = '0123456789ABCDEF' if upper else '0123456789abcdef'
    zero = fl is not None and fl & (1 << 24)
    alt = fl is not None and fl & (1 << 23)
    if alt or pr is not None:
        return [(st, (('disp', 'hex', v, (fl, wd, pr)),))]
    w = wd or 0
    fill = '0'
    if w and not zero:
        fc = fl & 0x1FFFFF if fl is not None else 0x20
        fill = chr(fc) if fc else ' '
    d = domain(st.dom, v)
    if not d or d[0][0] < 0 or d[-1][1] >= 1 << 64:
        return [(st, (('disp', 'hex', v, (fl, wd, pr)),))]
    out = []
    nmax = max(1, (d[-1][1].bit_length() + 3) // 4)
    sets = [((0 if n == 1 else 1 << (4 * (n - 1)), (1 << (4 * n)) - 1),) for n in range(1, nmax + 1)]
    # digit counts up to the padded width render alike when padding with zeros
    if fill == '0' and w > 1:
        m = min(w, nmax)
        sets = [((0, (1 << (4 * m)) - 1),)] + sets[m:]
        lens = [m] + list(range(m + 1, nmax + 1))
    else:
        lens = list(range(1, nmax + 1))
    table = tuple(ord(ch) for ch in tab)
    for s, i in (E.split(st, v, sets) if not isinstance(v, int) else
                 [(st, [j for j, x in enumerate(sets) if T.iand(((v, v),), x)][0])]):
        n = lens[i]
        at = ()
        if isinstance(v, int):
            out.append((s, (('lit', format(v, 'X' if upper else 'x').rjust(w, fill)),)))
            continue
        for j in range(n - 1, -1, -1):
            x = T.shr(s.dom, v, 4 * j)
            nib = T.bitand(s.dom, x, 15)
            at += (('ch', ('sel', table, nib) if not isinstance(nib, int) else table[nib]),)
        if w > n:
            at = (('lit', fill * (w - n)),) + at
        out.append((s, atoms_norm(at)))
    return out


def render(E, st, fa):
    cur = [(st, ())]
    for p in fa[1]:
        nxt = []
        for s, at in cur:
            if isinstance(at, Panic):
                nxt.append((s, at))
            elif p[0] == 'lit':
                nxt.append((s, at + (p,)))
            elif p[0] == 'lits':
                nxt.append((s, at + p[1]))
            else:
                _, k, ref, key, ty = p[1]
                for s2, x in fmt_value(E, s, k, ref, key, ty, p[2]):
                    nxt.append((s2, x if isinstance(x, Panic) else at + x))
        cur = nxt
    return [(s, at if isinstance(at, Panic) else atoms_norm(at)) for s, at in cur]


@nat('std::fmt::format', 'alloc::fmt::format')
def n_format(E, st, c, a):
    return [(s, at if isinstance(at, Panic) else ('str', at)) for s, at in render(E, st, a[0])]


@nat('<T as std::string::ToString>::to_string', '<T as std::string::SpecToString>::spec_to_string')
def n_to_string(E, st, c, a):
    ty = c['gen'][0]
    key = None
    for k in E.p.fns:
        pass
    out = fmt_value(E, st, 'display', a[0], display_impl(E, ty, c), ty, (None, None, None))
    return [(s, at if isinstance(at, Panic) else ('str', atoms_norm(at))) for s, at in out]


def display_impl(E, ty, c):
    cache = E.p.__dict__.setdefault('_disp', {})
    if ty in cache:
        return cache[ty]
    r = None
    name = E.p.types[ty]['str']
    for k, f in E.p.fns.items():
        if f['sdef'].endswith('as std::fmt::Display>::fmt') and 'locals' in f:
            t = E.p.types[f['locals'][1]]
            if t['k'] == 'ref' and t['elem'] == ty:
                r = k
    cache[ty] = r
    return r


FMT_OK = None


def fmt_ok(E, c):
    return ok(ret_ty(c), ('agg', None, 0, ()))


def fplace(E, st, v):
    cell, path, x = loc(E, st, v)
    return cell, path, x


@nat('std::fmt::Formatter::write_str', "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", 'std::fmt::Write::write_str',
     'std::fmt::Formatter::pad', 'std::fmt::Write::write_char', "std::fmt::Formatter::write_char")
def n_fwrite_str(E, st, c, a):
    cell, path, x = fplace(E, st, a[0])
    at = ((('ch', a[1]),) if is_scalar(a[1]) else as_str(E, st, a[1]))
    if x[0] == 'fmtr':
        if c['sdef'].endswith('::pad') and x[2] != (None, None, None):
            at = (('disp', 'padded', at, x[2]),)
        E.write(st, cell, path, ('fmtr', atoms_norm(x[1] + at), x[2]))
        return [(st, fmt_ok(E, c))]
    if x[0] == 'str':
        E.write(st, cell, path, cat(x, at))
        return [(st, fmt_ok(E, c))]
    return None


@nat('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt', 'std::fmt::write')
def n_fwrite_fmt(E, st, c, a):
    cell, path, x = fplace(E, st, a[0])
    out = []
    if x[0] not in ('fmtr', 'str'):
        return None
    for s, at in render(E, st, a[1]):
        if isinstance(at, Panic):
            out.append((s, at))
            continue
        x2 = E.read(s, cell, path)
        if x2[0] == 'fmtr':
            E.write(s, cell, path, ('fmtr', atoms_norm(x2[1] + at), x2[2]))
        else:
            E.write(s, cell, path, cat(x2, at))
        out.append((s, fmt_ok(E, c)))
    return out


@nat('std::fmt::Display::fmt')
def n_display_fmt(E, st, c, a):
    """delegation: Display::fmt(&x, f)"""
    try:
        cell, path, x = fplace(E, st, a[1])
    except Undecided:
        return None
    if x[0] != 'fmtr':
        return None
    ty = E.p.types[c['locals'][1]]['elem'] if 'locals' in c else (E.p.types[c['sig'][0][0]].get('elem') if 'sig' in c else None)
    if ty is None or E.p.types[ty]['k'] == 'adt' and E.p.types[ty]['def'] != 'std::string::String':
        return None
    out = []
    for s, at in fmt_value(E, st, 'display', a[0], None, ty, x[2]):
        x2 = E.read(s, cell, path)
        E.write(s, cell, path, ('fmtr', atoms_norm(x2[1] + at), x2[2]))
        out.append((s, fmt_ok(E, c)))
    return out
