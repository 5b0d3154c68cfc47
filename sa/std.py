"""Abstract semantics of the standard library functions the analysed code uses ("natives").

A native is f(E, st, callee, args) -> [(st, value)], or None when it does not apply (the std MIR body is then analysed).
"""
from . import terms as T
from .terms import is_term, is_scalar, domain, decide, restrict
from .core import Undecided, Panic, lit, cat, atoms_norm, cell_char, ISIZE_MAX

N = {}
WS = ((9, 10), (13, 13), (32, 32))
UNIWS = T.inorm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
                 (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
UNIT = ('agg', None, 0, ())


def nat(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


def STR(*ms):
    return [p + m for m in ms for p in ('core::str::<impl str>::', 'std::str::<impl str>::', 'std::string::String::')]


def SL(*ms):
    return [p + m for m in ms for p in ('core::slice::<impl [T]>::', 'std::slice::<impl [T]>::', 'alloc::slice::<impl [T]>::')]


def ret_ty(callee):
    if 'locals' in callee:
        return callee['locals'][0]
    if 'sig' in callee:
        return callee['sig'][1]
    raise Undecided('return type of ' + callee['name'])


def some(E, ty, v):
    return ('agg', ty, 1, (v,))


def none(ty):
    return ('agg', ty, 0, ())


def ok(ty, v):
    return ('agg', ty, 0, (v,))


def err(ty, v):
    return ('agg', ty, 1, (v,))


def deref(E, st, v):
    n = 0
    while isinstance(v, tuple) and v and v[0] in ('ref', 'box'):
        v = E.read(st, v[1], v[2] if v[0] == 'ref' else ())
        n += 1
        if n > 20:
            raise Undecided('deref chain')
    return v


def as_str(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, tuple) and v and v[0] == 'str':
        return v[1]
    if isinstance(v, tuple) and v and v[0] == 'opq':
        v = E.sub(st, v, (0,)) if False else v
    raise Undecided('string expected: %s' % (str(v)[:80],))


def loc(E, st, v):
    """innermost place of a (possibly multiple) reference to a container"""
    if not (isinstance(v, tuple) and v and v[0] in ('ref', 'box')):
        raise Undecided('place expected: %s' % (str(v)[:60],))
    cell, path = v[1], (v[2] if v[0] == 'ref' else ())
    while True:
        x = E.read(st, cell, path)
        if isinstance(x, tuple) and x and x[0] in ('ref', 'box'):
            cell, path = x[1], (x[2] if x[0] == 'ref' else ())
            continue
        return cell, path, x


def newcell(st, v):
    st.n += 1
    c = ('b', st.n)
    st.heap[c] = v
    return c


def rd(E, st, v):
    """value behind one reference"""
    if v[0] == 'ref':
        return E.read(st, v[1], v[2])
    if v[0] == 'str':
        return v
    raise Undecided('reference expected')


# ------------------------------------------------------------------ identity-like
@nat('std::hint::must_use', 'core::hint::must_use', 'std::hint::black_box', 'std::convert::identity')
def n_id(E, st, c, a):
    return [(st, a[0])]


@nat('std::intrinsics::likely', 'std::intrinsics::unlikely', 'core::intrinsics::unlikely', 'core::intrinsics::likely')
def n_id2(E, st, c, a):
    return [(st, a[0])]


@nat('std::intrinsics::cold_path', 'core::intrinsics::cold_path', 'std::intrinsics::assume', 'std::mem::drop', 'std::mem::forget',
     'core::intrinsics::assume', 'std::hint::cold_path')
def n_unit(E, st, c, a):
    return [(st, UNIT)]


@nat('std::hint::unreachable_unchecked', 'core::hint::unreachable_unchecked')
def n_unreach(E, st, c, a):
    return []


@nat('core::ub_checks::check_language_ub', 'std::ub_checks::check_language_ub')
def n_ub(E, st, c, a):
    return [(st, 0)]


@nat('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def n_clone(E, st, c, a):
    if callee_is_local_clone(E, c):
        if E.hooks.get('noclone') == c['key']:
            return None
    v = a[0]
    if v[0] == 'str':
        return [(st, v)]
    if v[0] == 'ref':
        x = E.read(st, v[1], v[2])
        if x[0] == 'agg' and has_box(x):
            return None
        return [(st, x)]
    return None


def callee_is_local_clone(E, c):
    return c['crate'] in ('json', 'vderive')


def has_box(v):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'box':
        return True
    return any(has_box(x) for x in v if isinstance(x, tuple))


@nat('<T as std::convert::From<T>>::from', '<T as std::convert::From>::from')
def n_from_id(E, st, c, a):
    return [(st, a[0])]


@nat('std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
     'std::borrow::BorrowMut::borrow_mut', 'std::convert::AsMut::as_mut')
def n_deref(E, st, c, a):
    v = a[0]
    if v[0] == 'str':
        return [(st, v)]
    if v[0] == 'ref':
        x = E.read(st, v[1], v[2])
        if x[0] == 'str':
            # &mut str is never needed; &str is a value
            return [(st, x)]
        if x[0] in ('seq',):
            return [(st, v)]
        if x[0] == 'box':
            return [(st, ('ref', x[1], ()))]
        if x[0] == 'ref':
            return [(st, x)] if c['sdef'].startswith('<&') or 'for &' in c['sdef'] else None
    return None


# ------------------------------------------------------------------ mem, Box
@nat('std::mem::replace', 'core::mem::replace')
def n_replace(E, st, c, a):
    r = a[0]
    old = E.read(st, r[1], r[2])
    E.write(st, r[1], r[2], a[1])
    return [(st, old)]


@nat('std::mem::swap', 'core::mem::swap')
def n_swap(E, st, c, a):
    x = E.read(st, a[0][1], a[0][2])
    y = E.read(st, a[1][1], a[1][2])
    E.write(st, a[0][1], a[0][2], y)
    E.write(st, a[1][1], a[1][2], x)
    return [(st, UNIT)]


def default_of(E, ty):
    t = E.p.types[ty]
    k = t['k']
    if k in ('int', 'uint', 'bool', 'char'):
        return 0
    if k == 'float':
        return ('flt', ('bits', t['bits'], 0))
    if k == 'tuple':
        vs = [default_of(E, e) for e in t['elems']]
        return None if any(v is None for v in vs) else ('agg', ty, 0, tuple(vs))
    if k == 'ref' and E.p.types[t['elem']]['k'] == 'str':
        return lit('')
    if k == 'adt':
        d = t['def']
        if d == 'std::string::String':
            return lit('')
        if d in ('std::vec::Vec', 'std::collections::LinkedList', 'std::collections::VecDeque'):
            return ('seq', ())
        if d in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            return ('map', None, (), t['args'][0], t['args'][1])
        if d == 'std::option::Option':
            return none(ty)
    return None


@nat('std::default::Default::default')
def n_default(E, st, c, a):
    v = default_of(E, ret_ty(c))
    return None if v is None else [(st, v)]


@nat('std::mem::take', 'core::mem::take')
def n_take(E, st, c, a):
    r = a[0]
    v = default_of(E, c['gen'][0])
    if v is None:
        return None
    old = E.read(st, r[1], r[2])
    E.write(st, r[1], r[2], v)
    return [(st, old)]


@nat('std::boxed::Box::new')
def n_box(E, st, c, a):
    return [(st, ('box', newcell(st, a[0])))]


@nat('std::boxed::Box::into_inner')
def n_unbox(E, st, c, a):
    return [(st, E.read(st, a[0][1], ()))]


# ------------------------------------------------------------------ str / String: construction
@nat('std::string::String::new', 'std::string::String::with_capacity')
def n_snew(E, st, c, a):
    return [(st, lit(''))]


@nat('std::string::String::push')
def n_spush(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    E.write(st, cell, path, cat(v, (('ch', a[1]),)))
    return [(st, UNIT)]


@nat('std::string::String::push_str', 'std::string::String::write_str')
def n_spush_str(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    E.write(st, cell, path, cat(v, as_str(E, st, a[1])))
    return [(st, UNIT)]


@nat('std::ops::AddAssign::add_assign')
def n_sadd_assign(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    if v[0] != 'str':
        return None
    E.write(st, cell, path, cat(v, as_str(E, st, a[1])))
    return [(st, UNIT)]


@nat('std::ops::Add::add')
def n_sadd(E, st, c, a):
    if isinstance(a[0], tuple) and a[0][0] == 'str':
        return [(st, cat(a[0], as_str(E, st, a[1])))]
    return None


@nat('std::string::String::clear')
def n_sclear(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    E.write(st, cell, path, lit(''))
    return [(st, UNIT)]


@nat('std::string::String::reserve', 'std::string::String::shrink_to_fit', 'std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit',
     'std::string::String::reserve_exact', 'std::collections::HashMap::reserve', 'std::collections::HashMap::shrink_to_fit')
def n_reserve(E, st, c, a):
    return [(st, UNIT)]


@nat('std::string::String::insert', 'std::string::String::insert_str')
def n_sinsert(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    new = (('ch', a[2]),) if is_scalar(a[2]) else as_str(E, st, a[2])
    if a[1] == 0:
        E.write(st, cell, path, cat(new, v))
        return [(st, UNIT)]
    return None


@nat('std::string::String::pop')
def n_spop(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    ty = ret_ty(c)
    at = E.flat(st, v[1])
    if not at:
        return [(st, none(ty))]
    l = at[-1]
    if l[0] == 'lit':
        E.write(st, cell, path, ('str', atoms_norm(at[:-1] + (('lit', l[1][:-1]),))))
        return [(st, some(E, ty, ord(l[1][-1])))]
    if l[0] == 'ch':
        E.write(st, cell, path, ('str', at[:-1]))
        return [(st, some(E, ty, l[1]))]
    raise Undecided('pop of a string with unknown tail')


@nat('std::string::String::truncate')
def n_struncate(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    if a[1] == 0:
        E.write(st, cell, path, lit(''))
        return [(st, UNIT)]
    out = []
    for s, r in byte_split(E, st, v[1], a[1]):
        if r == 'short':
            out.append((s, UNIT))
        elif r == 'mid':
            out.append((s, Panic('truncate inside a character at ' + E.user_where(s))))
        else:
            E.write(s, cell, path, ('str', r[0]))
            out.append((s, UNIT))
    return out


@nat(*STR('as_str', 'as_ref', 'into_string', 'into_boxed_str', 'as_mut_str', 'to_owned'))
def n_sid(E, st, c, a):
    return [(st, ('str', as_str(E, st, a[0])))]


@nat('<std::string::String as std::convert::From<&str>>::from', '<std::string::String as std::convert::From<&std::string::String>>::from',
     '<std::string::String as std::convert::From<std::boxed::Box<str>>>::from', '<std::string::String as std::convert::From<&mut str>>::from',
     '<std::string::String as std::convert::From<std::borrow::Cow<\'a, str>>>::from')
def n_sfrom(E, st, c, a):
    return [(st, ('str', as_str(E, st, a[0])))]


@nat('<std::string::String as std::convert::From<char>>::from')
def n_sfromc(E, st, c, a):
    return [(st, ('str', atoms_norm((('ch', a[0]),))))]


@nat('std::borrow::Cow::into_owned')
def n_cow(E, st, c, a):
    return None


# ------------------------------------------------------------------ str: observation
@nat(*STR('is_empty'))
def n_sempty(E, st, c, a):
    at = as_str(E, st, a[0])
    r = E.str_nonempty(st, at)
    if r is not None:
        return [(st, int(not r))]
    out = []
    for s, x in E.uncons(st, at):
        out.append((s, int(x is None)))
    return out


@nat(*STR('len'))
def n_slen(E, st, c, a):
    return [(st, E.str_len(st, as_str(E, st, a[0])))]


@nat('std::string::String::capacity')
def n_cap(E, st, c, a):
    x = st.fresh('cap')
    E.setdom(st, x, ((0, ISIZE_MAX),))
    return [(st, x)]


@nat(*STR('chars'))
def n_chars(E, st, c, a):
    return [(st, ('chars', as_str(E, st, a[0])))]


@nat(*STR('char_indices'))
def n_char_indices(E, st, c, a):
    return [(st, ('chind', as_str(E, st, a[0]), 0))]


def char_bytes(E, st, c):
    """[(st, [byte terms])]"""
    out = []
    if isinstance(c, int):
        return [(st, list(chr(c).encode('utf-8', 'surrogatepass')))]
    for s, i in E.split(st, c, [((0, 0x7F),), ((0x80, 0x7FF),), ((0x800, 0xFFFF),), ((0x10000, 0x10FFFF),)]):
        d = s.dom
        n = i + 1
        if n == 1:
            out.append((s, [c]))
            continue
        bs = [T.add(T.bitand(d, c, 63), 0x80)]
        x = T.shr(d, c, 6)
        for j in range(1, n):
            if j == n - 1:
                bs.append(T.add(x, (0xC0, 0xE0, 0xF0)[n - 2]))
            else:
                bs.append(T.add(T.bitand(d, x, 63), 0x80))
                x = T.shr(d, x, 6)
        out.append((s, bs[::-1]))
    return out


@nat(*STR('bytes'))
def n_bytes(E, st, c, a):
    return [(st, ('bytes', (), as_str(E, st, a[0])))]


@nat(*STR('as_bytes', 'into_bytes'))
def n_as_bytes(E, st, c, a):
    at = E.flat(st, as_str(E, st, a[0]))
    cur = [(st, ())]
    for x in at:
        if x[0] == 'lit':
            bs = tuple(('e', b) for b in x[1].encode('utf-8', 'surrogatepass'))
            cur = [(s, segs + bs) for s, segs in cur]
        elif x[0] == 'ch':
            cur = [(s2, segs + tuple(('e', b) for b in bs)) for s, segs in cur for s2, bs in char_bytes(E, s, x[1])]
        else:
            # opaque bytes: an opaque sequence bound to the string
            u8 = E.p.tyname.get('u8')
            term = ('bytesof', (x,))
            n = ('sym', 'len', term)
            cur2 = []
            for s, segs in cur:
                E.setdom(s, n, ((0, ISIZE_MAX),))
                cur2.append((s, segs + (('t', term, u8, 0, n),)))
            cur = cur2
    out = []
    for s, segs in cur:
        v = ('seq', segs)
        out.append((s, v if c['sdef'].endswith('into_bytes') else ('ref', newcell(s, v), ())))
    return out


def next_char(E, st, it_ref):
    cell, path, v = loc(E, st, it_ref)
    out = []
    for s, x in E.uncons(st, v[1]):
        if x is None:
            E.write(s, cell, path, (v[0], ()) + v[2:])
            out.append((s, None))
        else:
            E.write(s, cell, path, (v[0], x[1]) + v[2:])
            out.append((s, x[0]))
    return out


def clen(E, st, c):
    """[(st, byte length)]"""
    if isinstance(c, int):
        return [(st, len(chr(c).encode('utf-8', 'surrogatepass')))]
    return [(s, i + 1) for s, i in E.split(st, c, [((0, 0x7F),), ((0x80, 0x7FF),), ((0x800, 0xFFFF),), ((0x10000, 0x10FFFF),)])]


def byte_split(E, st, atoms, n):
    """split at byte offset n: [(st, (left, right) | 'short' | 'mid')]"""
    if not isinstance(n, int):
        d = domain(st.dom, n)
        if d and d[0][0] == d[-1][1]:
            n = d[0][0]
        elif T.sub(n, E.str_len(st, atoms)) == 0:
            return [(st, (atoms, ()))]
        else:
            # a length of a prefix of the atoms?
            at = E.flat(st, atoms)
            for i in range(len(at) + 1):
                if T.sub(E.str_len(st, at[:i]), n) == 0:
                    return [(st, (at[:i], at[i:]))]
            raise Undecided('byte offset into a string')
    out = []
    work = [(st, (), atoms, n)]
    while work:
        s, l, r, k = work.pop()
        if k == 0:
            out.append((s, (atoms_norm(l), r)))
            continue
        for s1, x in E.uncons(s, r):
            if x is None:
                out.append((s1, 'short'))
                continue
            for s2, w in clen(E, s1, x[0]):
                if w > k:
                    out.append((s2, 'mid'))
                else:
                    work.append((s2, l + (('ch', x[0]),), x[1], k - w))
    return out


def range_bounds(E, st, v):
    """(lo, hi or None) of a range value"""
    t = E.p.types[v[1]]
    d = t['def'].split('::')[-1]
    f = v[3]
    if d == 'RangeFrom':
        return f[0], None
    if d == 'RangeTo':
        return 0, f[0]
    if d == 'Range':
        return f[0], f[1]
    if d == 'RangeFull':
        return 0, None
    if d == 'RangeToInclusive':
        return 0, T.add(f[0], 1)
    if d == 'RangeInclusive':
        return f[0], T.add(f[1], 1)
    raise Undecided('range type ' + d)


def str_range(E, st, at, lo, hi):
    out = []
    for s, r in byte_split(E, st, at, lo):
        if r in ('short', 'mid'):
            out.append((s, None))
            continue
        if hi is None:
            out.append((s, r[1]))
            continue
        for s2, r2 in byte_split(E, s, r[1], T.sub(hi, lo)):
            out.append((s2, None if r2 in ('short', 'mid') else r2[0]))
    return out


@nat('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def n_index(E, st, c, a):
    if a[0][0] == 'str':
        base = a[0]
    else:
        base = deref(E, st, a[0])
    if base[0] == 'str':
        lo, hi = range_bounds(E, st, deref(E, st, a[1]))
        return [(s, Panic('string slice out of range at ' + E.user_where(s)) if r is None else ('str', r))
                for s, r in str_range(E, st, base[1], lo, hi)]
    if base[0] == 'seq':
        cell, path, v = loc(E, st, a[0])
        if is_scalar(a[1]):
            return [(s, x if x is not None else Panic('index out of bounds at ' + E.user_where(s)))
                    for s, x in seq_ref(E, st, cell, path, v, a[1])]
        lo, hi = range_bounds(E, st, a[1])
        n = E.seq_len(v)
        if hi is None:
            hi = n
        out = []
        for s, b in E.branch(st, T.cmp('Le', hi, n)):
            for s2, b2 in E.branch(s, T.cmp('Le', lo, hi)) if b else [(s, False)]:
                if b and b2:
                    out.append((s2, ('ref', cell, path + (('slice', lo, hi),)) if (lo, hi) != (0, n) else ('ref', cell, path)))
                else:
                    out.append((s2, Panic('slice out of range at ' + E.user_where(s2))))
        return out
    if base[0] == 'map':
        r = map_get(E, st, a)
        return [(s, x if x is not None else Panic('key not in map at ' + E.user_where(s))) for s, x in r]
    return None


@nat(*STR('get'))
def n_sget(E, st, c, a):
    at = as_str(E, st, a[0])
    lo, hi = range_bounds(E, st, a[1])
    ty = ret_ty(c)
    return [(s, none(ty) if r is None else some(E, ty, ('str', r))) for s, r in str_range(E, st, at, lo, hi)]


@nat(*STR('split_at'))
def n_ssplit_at(E, st, c, a):
    at = as_str(E, st, a[0])
    ty = ret_ty(c)
    return [(s, Panic('split_at out of range at ' + E.user_where(s)) if r in ('short', 'mid') else
             ('agg', ty, 0, (('str', r[0]), ('str', r[1])))) for s, r in byte_split(E, st, at, a[1])]


@nat(*STR('is_char_boundary'))
def n_isb(E, st, c, a):
    at = as_str(E, st, a[0])
    return [(s, 0 if r in ('short', 'mid') else 1) for s, r in byte_split(E, st, at, a[1])]


# --- patterns
def pat_match(E, st, pat, ch):
    """does the char pattern match character ch: [(st, bool)]"""
    p = pat
    if isinstance(p, tuple) and p[0] == 'ref':
        q = E.read(st, p[1], p[2])
        if is_scalar(q):
            p = q
        elif q[0] == 'seq':
            p = q
    if is_scalar(p):
        return E.branch(st, T.cmp('Eq', ch, p))
    if p[0] == 'seq':
        cur = [(st, False)]
        for sg in p[1]:
            if sg[0] != 'e':
                raise Undecided('character set')
            nxt = []
            for s, b in cur:
                if b:
                    nxt.append((s, True))
                else:
                    nxt += E.branch(s, T.cmp('Eq', ch, sg[1]))
            cur = nxt
        return cur
    if p[0] in ('fn', 'clo', 'ref'):
        out = []
        for s, v in E.call_value(st, p, [ch]):
            if isinstance(v, Panic):
                raise Undecided('panicking character predicate')
            out += E.branch(s, v)
        return out
    raise Undecided('pattern %s' % (str(p)[:40],))


def pat_set(E, st, pat):
    """the set of characters a pattern matches"""
    s = st.copy()
    s.mon = {}
    s.hist = {}
    x = ('sym', 'patch')
    s.dom = dict(s.dom)
    s.dom[x] = T.CHAR
    yes = ()
    mon, E.monitor = E.monitor, None
    try:
        for s2, b in pat_match(E, s, pat, x):
            if b:
                yes = T.ior(yes, domain(s2.dom, x))
    finally:
        E.monitor = mon
    return T.inorm(yes)


def is_strpat(E, st, p):
    v = p
    if isinstance(v, tuple) and v[0] == 'ref':
        v = deref(E, st, v)
    return isinstance(v, tuple) and v[0] == 'str'


def prefix(E, st, at, pat):
    """[(st, rest atoms | None)]"""
    if is_strpat(E, st, pat):
        p = E.flat(st, as_str(E, st, pat))
        out = []
        work = [(st, at, p)]
        while work:
            s, x, y = work.pop()
            if not y:
                out.append((s, x))
                continue
            if y[0][0] not in ('lit', 'ch'):
                raise Undecided('prefix by an unknown string')
            for s0, w in E.uncons(s, y):
                for s1, u in E.uncons(s0, x):
                    if u is None:
                        out.append((s1, None))
                        continue
                    for s2, b in E.branch(s1, T.cmp('Eq', u[0], w[0])):
                        if b:
                            work.append((s2, u[1], w[1]))
                        else:
                            out.append((s2, None))
        return out
    out = []
    for s, u in E.uncons(st, at):
        if u is None:
            out.append((s, None))
            continue
        for s2, b in pat_match(E, s, pat, u[0]):
            out.append((s2, u[1] if b else None))
    return out


def rev_atoms(E, st, at):
    at = E.flat(st, at)
    out = []
    for a in reversed(at):
        if a[0] == 'lit':
            out.append(('lit', a[1][::-1]))
        elif a[0] == 'ch':
            out.append(a)
        elif a[0] == 'S':
            out.append(('S', a[1][1]) if isinstance(a[1], tuple) and a[1][0] == 'revs' else ('S', ('revs', a[1])))
        else:
            raise Undecided('reversal of a partly read string')
    return tuple(out)


@nat(*STR('starts_with'))
def n_starts(E, st, c, a):
    return [(s, int(r is not None)) for s, r in prefix(E, st, as_str(E, st, a[0]), a[1])]


@nat(*STR('strip_prefix'))
def n_strip_prefix(E, st, c, a):
    ty = ret_ty(c)
    return [(s, none(ty) if r is None else some(E, ty, ('str', r))) for s, r in prefix(E, st, as_str(E, st, a[0]), a[1])]


def suffix(E, st, at, pat):
    at = E.flat(st, at)
    if is_strpat(E, st, pat):
        p = ('str', rev_atoms(E, st, as_str(E, st, pat)))
    else:
        p = pat
    # only strings whose end is known
    out = []
    for s, r in prefix(E, st, rev_atoms(E, st, at), p):
        out.append((s, None if r is None else rev_atoms(E, s, r)))
    return out


@nat(*STR('ends_with'))
def n_ends(E, st, c, a):
    return [(s, int(r is not None)) for s, r in suffix(E, st, as_str(E, st, a[0]), a[1])]


@nat(*STR('strip_suffix'))
def n_strip_suffix(E, st, c, a):
    ty = ret_ty(c)
    return [(s, none(ty) if r is None else some(E, ty, ('str', r))) for s, r in suffix(E, st, as_str(E, st, a[0]), a[1])]


@nat(*STR('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right',
          'trim_left_matches', 'trim_right_matches'))
def n_trim(E, st, c, a):
    m = c['sdef'].split('::')[-1]
    at = E.flat(st, as_str(E, st, a[0]))
    if m.endswith('matches'):
        if is_strpat(E, st, a[1]):
            raise Undecided('trim by a string')
        cs = pat_set(E, st, a[1])
    else:
        cs = UNIWS
    left = m in ('trim', 'trim_matches') or 'start' in m or 'left' in m
    right = m in ('trim', 'trim_matches') or 'end' in m or 'right' in m
    if not cs:
        return [(st, ('str', at))]
    if len(at) == 1 and at[0][0] == 'S' and E.stream(st, at[0][1]) == (0, 0, 0):
        nm = at[0][1]
        if isinstance(nm, tuple) and nm[0] == 'trim' and nm[2] == cs:
            l0, r0 = nm[3]
            nm2 = ('trim', nm[1], cs, (l0 or left, r0 or right))
            return [(st, ('str', (('S', nm2),)))]
        return [(st, ('str', (('S', ('trim', nm, cs, (left, right))),)))]
    if all(x[0] in ('lit', 'ch') for x in at):
        cur = [(st, at)]
        for side in ([0] if left else []) + ([1] if right else []):
            done = []
            while cur:
                s, x = cur.pop()
                y = x if side == 0 else rev_atoms(E, s, x)
                for s2, u in E.uncons(s, y):
                    if u is None:
                        done.append((s2, ()))
                        continue
                    for s3, i in E.split(s2, u[0], [cs, T.inot(cs)]):
                        if i == 0:
                            cur.append((s3, u[1] if side == 0 else rev_atoms(E, s3, u[1])))
                        else:
                            done.append((s3, x))
            cur = done
        return [(s, ('str', atoms_norm(x))) for s, x in cur]
    return [(st, ('str', (('S', ('trim', at, cs, (left, right))),)))]


@nat(*STR('contains'))
def n_scontains(E, st, c, a):
    at = E.flat(st, as_str(E, st, a[0]))
    if is_strpat(E, st, a[1]) or not all(x[0] in ('lit', 'ch') for x in at):
        if not at:
            return [(st, 0)]
        k = ('sym', 'contains', at, repr(a[1])[:80])
        E.setdom(st, k, ((0, 1),))
        return [(st, k)]
    cur = [(st, at)]
    out = []
    while cur:
        s, x = cur.pop()
        for s1, u in E.uncons(s, x):
            if u is None:
                out.append((s1, 0))
                continue
            for s2, b in pat_match(E, s1, a[1], u[0]):
                if b:
                    out.append((s2, 1))
                else:
                    cur.append((s2, u[1]))
    return out


@nat(*STR('parse'))
def n_parse(E, st, c, a):
    at = E.flat(st, as_str(E, st, a[0]))
    return parse_to(E, st, at, c['gen'][0] if c['gen'] else None, ret_ty(c), c)


@nat('std::str::FromStr::from_str')
def n_from_str(E, st, c, a):
    if c['crate'] in ('json', 'vroots', 'vderive'):
        return None
    rt = ret_ty(c)
    return parse_to(E, st, E.flat(st, as_str(E, st, a[0])), E.p.types[rt]['args'][0], rt, c)


def known_number(E, st, at, t):
    """outcome of parsing a text as a number where its characters settle it: a value, False (does not parse) or None"""
    at = [a for a in at if a != ('lit', '')]
    if not at:
        return False if t['k'] in ('int', 'uint', 'float') else None
    if t['k'] not in ('int', 'uint'):
        return None
    cs = []
    whole = True
    for a in at:
        if a[0] == 'lit':
            cs += [((ord(x), ord(x)),) for x in a[1]]
        elif a[0] == 'ch':
            cs.append(((a[1], a[1]),) if isinstance(a[1], int) else T.domain(st.dom, a[1]))
        else:
            whole = False
            if not cs:
                cs.append(None)
            continue
        d = cs[-1]
        ok_ = ((48, 57),) if len(cs) > 1 else ((43, 43), (48, 57)) if t['k'] == 'uint' else ((43, 43), (45, 45), (48, 57))
        if not T.iand(d, ok_):
            return False
    if whole and all(d and len(d) == 1 and d[0][0] == d[0][1] for d in cs):
        x = ''.join(chr(d[0][0]) for d in cs)
        if x in ('+', '-'):
            return False
        lo, hi = (0, (1 << t['bits']) - 1) if t['k'] == 'uint' else (-(1 << t['bits'] - 1), (1 << t['bits'] - 1) - 1)
        return int(x) if lo <= int(x) <= hi else False
    return None


def parse_to(E, st, at, ty, rt, c):
    t = E.p.types[ty]
    if t['k'] == 'adt' and t['def'] == 'std::string::String':
        return [(st, ok(rt, ('str', at)))]
    if t['k'] not in ('float', 'int', 'uint', 'bool', 'char'):
        return None
    ety = E.p.types[rt]['args'][1]
    h = E.hooks.get('parse')
    if h:
        r = h(E, st, at, t, rt)
        if r is not None:
            return r
    w = known_number(E, st, at, t)
    if w is not None:
        return [(st, ok(rt, w) if w is not False else err(rt, ('opq', ety, ('perr', t['str'], at))))]
    k = ('sym', 'parses', t['str'], at)
    E.setdom(st, k, ((0, 1),))
    out = []
    for s, b in E.branch(st, k):
        if b:
            if t['k'] == 'float':
                v = ('flt', ('parsed', at, t['bits']))
            else:
                v = ('sym', 'parsed', t['str'], at)
                E.setdom(s, v, E.type_dom(ty))
            out.append((s, ok(rt, v)))
        else:
            out.append((s, err(rt, ('opq', ety, ('perr', t['str'], at)))))
    return out


@nat('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def n_eq(E, st, c, a):
    x, y = a
    neg = c['sdef'].endswith('::ne')
    try:
        x1, y1 = deref(E, st, x), deref(E, st, y)
    except Undecided:
        return None
    if isinstance(x1, tuple) and isinstance(y1, tuple) and x1[0] == 'str' and y1[0] == 'str':
        return [(s, int(b != neg)) for s, b in E.str_eq(st, x1, y1)]
    if is_scalar(x1) and is_scalar(y1):
        return [(st, T.cmp('Ne' if neg else 'Eq', x1, y1))]
    if isinstance(x1, tuple) and x1[0] == 'flt' and y1[0] == 'flt':
        return E.fcmp(st, 'Ne' if neg else 'Eq', x1, y1)
    if isinstance(x1, tuple) and isinstance(y1, tuple) and x1[0] == 'seq' and y1[0] == 'seq':
        n, m = E.seq_len(x1), E.seq_len(y1)
        if 0 in (n, m) or decide(st.dom, T.cmp('Eq', n, m)) is False:
            return [(st, T.cmp('Ne' if neg else 'Eq', n, m))]
        if isinstance(n, int) and isinstance(m, int):
            if n != m:
                return [(st, int(neg))]
            if all(s[0] == 'e' and is_scalar(s[1]) for s in x1[1] + y1[1]):
                cur = [(st, True)]
                for p, q in zip(x1[1], y1[1]):
                    nxt = []
                    for s, b in cur:
                        nxt += E.branch(s, T.cmp('Eq', p[1], q[1])) if b else [(s, False)]
                    cur = nxt
                return [(s, int(b != neg)) for s, b in cur]
    return None


@nat('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def n_cmp(E, st, c, a):
    try:
        x, y = deref(E, st, a[0]), deref(E, st, a[1])
    except Undecided:
        return None
    rt = ret_ty(c)
    opt = c['sdef'].endswith('partial_cmp')
    oty = E.p.types[rt]['args'][0] if opt else rt
    w = (lambda v: some(E, rt, v)) if opt else (lambda v: v)
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'str' and y[0] == 'str':
        return [(st, w(('opq', oty, ('strcmp', x[1], y[1]))))]
    if is_scalar(x) and is_scalar(y):
        out = []
        for s, lt in E.branch(st, T.cmp('Lt', x, y)):
            if lt:
                out.append((s, w(('agg', oty, 0, ()))))
                continue
            for s2, eq in E.branch(s, T.cmp('Eq', x, y)):
                out.append((s2, w(('agg', oty, 1 if eq else 2, ()))))
        return out
    return None


@nat(*('std::cmp::PartialOrd::' + x for x in ('lt', 'le', 'gt', 'ge')))
def n_strord(E, st, c, a):
    try:
        x, y = deref(E, st, a[0]), deref(E, st, a[1])
    except Undecided:
        return None
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'str' and y[0] == 'str':
        yes = {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2)}[c['sdef'][-2:]]
        d = ('sym', 'discr', ('strcmp', x[1], y[1]))
        E.setdom(st, d, ((0, 2),))
        return [(s, int(i in yes)) for s, i in E.split(st, d, [((j, j),) for j in range(3)])]
    return None


@nat(*('std::cmp::Ordering::is_' + x for x in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')))
def n_ordis(E, st, c, a):
    yes = {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2), 'eq': (1,), 'ne': (0, 2)}[c['sdef'][-2:]]
    v = a[0]
    if v[0] == 'opq':
        d = ('sym', 'discr', v[2])
        E.setdom(st, d, ((0, 2),))
        return [(s, int(i in yes)) for s, i in E.split(st, d, [((j, j),) for j in range(3)])]
    if v[0] == 'agg':
        return [(st, int(v[2] in yes))]
    return None


@nat('std::cmp::Ordering::reverse')
def n_ordrev(E, st, c, a):
    if a[0][0] == 'opq' and a[0][2][0] == 'strcmp':
        return [(st, ('opq', a[0][1], ('strcmp', a[0][2][2], a[0][2][1])))]
    if a[0][0] == 'agg':
        return [(st, ('agg', a[0][1], 2 - a[0][2], ()))]
    return None


@nat(*(STR('to_string', 'to_ascii_uppercase', 'to_ascii_lowercase', 'to_uppercase', 'to_lowercase')))
def n_stos(E, st, c, a):
    m = c['sdef'].split('::')[-1]
    at = as_str(E, st, a[0])
    if m == 'to_string':
        return [(st, ('str', at))]
    return None


@nat(*STR('repeat'))
def n_srepeat(E, st, c, a):
    if isinstance(a[1], int) and a[1] < 64:
        return [(st, ('str', atoms_norm(as_str(E, st, a[0]) * a[1])))]
    return None


@nat(*STR('find', 'rfind'))
def n_sfind(E, st, c, a):
    raise Undecided('str::find')


@nat(*STR('split', 'splitn', 'lines', 'split_whitespace', 'rsplit', 'split_terminator', 'rsplitn', 'matches', 'split_once', 'rsplit_once'))
def n_ssplit(E, st, c, a):
    raise Undecided('str::' + c['sdef'].split('::')[-1])


@nat(*STR('replace', 'replacen'))
def n_sreplace(E, st, c, a):
    raise Undecided('str::replace')


# --- utf-8
def decode_utf8(E, st, bs):
    """byte terms -> [(st, atoms | None)]"""
    out = []
    work = [(st, 0, ())]
    L = len(bs)
    while work:
        s, i, acc = work.pop()
        if i == L:
            out.append((s, atoms_norm(acc)))
            continue
        b0 = bs[i]
        for s1, k in E.split(s, b0, [((0, 0x7F),), ((0x80, 0xC1),), ((0xC2, 0xDF),), ((0xE0, 0xEF),), ((0xF0, 0xF4),), ((0xF5, 0xFF),)]):
            if k == 0:
                work.append((s1, i + 1, acc + (('ch', b0),)))
                continue
            if k in (1, 5) or i + (k - 1) >= L + 0 and i + k > L:
                out.append((s1, None))
                continue
            n = k            # total bytes: 2, 3, 4 for k = 2, 3, 4
            if i + n > L:
                out.append((s1, None))
                continue
            cur = [s1]
            bad = []
            for j in range(1, n):
                nx = []
                for s2 in cur:
                    for s3, ki in E.split(s2, bs[i + j], [((0x80, 0xBF),), ((0, 0x7F), (0xC0, 0xFF))]):
                        if ki == 0:
                            nx.append(s3)
                        else:
                            bad.append(s3)
                cur = nx
            out += [(s2, None) for s2 in bad]
            for s2 in cur:
                v = T.scale(T.sub(b0, (0, 0, 0xC0, 0xE0, 0xF0)[n]), 1 << (6 * (n - 1)))
                for j in range(1, n):
                    v = T.add(v, T.scale(T.sub(bs[i + j], 0x80), 1 << (6 * (n - 1 - j))))
                good = {2: ((0x80, 0x7FF),), 3: ((0x800, 0xD7FF), (0xE000, 0xFFFF)), 4: ((0x10000, 0x10FFFF),)}[n]
                for s3, ki in E.split(s2, v, [good, T.inot(good)]):
                    if ki == 0:
                        work.append((s3, i + n, acc + (('ch', v),)))
                    else:
                        out.append((s3, None))
    return out


def seq_elems(E, st, v):
    v = deref(E, st, v) if v[0] in ('ref',) else v
    if v[0] != 'seq':
        raise Undecided('sequence expected')
    if not all(s[0] == 'e' for s in v[1]):
        if len(v[1]) == 1 and v[1][0][0] == 't' and isinstance(v[1][0][1], tuple) and v[1][0][1][0] == 'bytesof' and v[1][0][3] == 0:
            return v[1][0][1]
        raise Undecided('bytes of unknown number')
    return [s[1] for s in v[1]]


@nat('std::str::from_utf8', 'core::str::from_utf8', 'std::string::String::from_utf8', 'core::str::<impl str>::from_utf8')
def n_from_utf8(E, st, c, a):
    rt = ret_ty(c)
    bs = seq_elems(E, st, a[0])
    ety = E.p.types[rt]['args'][1]
    if isinstance(bs, tuple):
        return [(st, ok(rt, ('str', bs[1])))]
    return [(s, ok(rt, ('str', r)) if r is not None else err(rt, ('opq', ety, ('utf8err',)))) for s, r in decode_utf8(E, st, bs)]


@nat('std::str::from_utf8_unchecked', 'std::string::String::from_utf8_unchecked')
def n_from_utf8u(E, st, c, a):
    bs = seq_elems(E, st, a[0])
    if isinstance(bs, tuple):
        return [(st, ('str', bs[1]))]
    out = []
    for s, r in decode_utf8(E, st, bs):
        if r is None:
            out.append((s, Panic('undefined behaviour: invalid UTF-8 at ' + E.user_where(s))))
        else:
            out.append((s, ('str', r)))
    return out


@nat('std::string::String::from_utf8_lossy')
def n_lossy(E, st, c, a):
    raise Undecided('from_utf8_lossy')


# ------------------------------------------------------------------ char
CH = lambda *ms: [p + m for m in ms for p in ('core::char::methods::<impl char>::', 'std::char::methods::<impl char>::', 'core::char::')] \
    + ['std::char::' + m for m in ms]


def in_set(E, st, t, s):
    r = E.member(st, t, s)
    return r


for _m, _s in (('is_ascii_digit', ((48, 57),)), ('is_ascii_alphabetic', ((65, 90), (97, 122))), ('is_ascii', ((0, 127),)),
               ('is_ascii_hexdigit', ((48, 57), (65, 70), (97, 102))), ('is_ascii_whitespace', ((9, 10), (12, 13), (32, 32))),
               ('is_ascii_alphanumeric', ((48, 57), (65, 90), (97, 122))), ('is_ascii_control', ((0, 31), (127, 127))),
               ('is_control', ((0, 31), (127, 159))), ('is_whitespace', UNIWS), ('is_ascii_graphic', ((33, 126),)),
               ('is_ascii_uppercase', ((65, 90),)), ('is_ascii_lowercase', ((97, 122),)),
               ('is_ascii_punctuation', ((33, 47), (58, 64), (91, 96), (123, 126)))):
    def _mk(s):
        def f(E, st, c, a):
            return in_set(E, st, deref(E, st, a[0]) if isinstance(a[0], tuple) and a[0][0] == 'ref' else a[0], s)
        return f
    for _n in CH(_m) + ['core::num::<impl u8>::' + _m]:
        N[_n] = _mk(_s)


@nat(*CH('is_digit'))
def n_is_digit(E, st, c, a):
    r = a[1]
    if not isinstance(r, int):
        return None
    s = ((48, 47 + min(r, 10)),) + (((65, 54 + r), (97, 86 + r)) if r > 10 else ())
    return in_set(E, st, a[0], T.inorm(s))


@nat(*CH('to_digit'))
def n_to_digit(E, st, c, a):
    r = a[1]
    ty = ret_ty(c)
    if not isinstance(r, int):
        return None
    sets = [((48, 47 + min(r, 10)),)]
    offs = [-48]
    if r > 10:
        sets += [((65, 54 + r),), ((97, 86 + r),)]
        offs += [-55, -87]
    sets.append(T.inot(T.inorm([x for s in sets for x in s])))
    out = []
    for s, i in E.split(st, a[0], sets):
        out.append((s, some(E, ty, T.add(a[0], offs[i])) if i < len(offs) else none(ty)))
    return out


@nat(*CH('from_digit'))
def n_from_digit(E, st, c, a):
    ty = ret_ty(c)
    n, r = a
    if not isinstance(r, int):
        return None
    out = []
    for s, i in E.split(st, n, [((0, min(9, r - 1)),), ((10, r - 1),) if r > 10 else (), ((r, 1 << 33),)]):
        out.append((s, none(ty) if i == 2 else some(E, ty, T.add(n, 48 if i == 0 else 87))))
    return out


@nat(*CH('from_u32'))
def n_from_u32(E, st, c, a):
    ty = ret_ty(c)
    return [(s, some(E, ty, a[0]) if i == 0 else none(ty)) for s, i in E.split(st, a[0], [T.CHAR, T.inot(T.CHAR)])]


@nat(*CH('from_u32_unchecked'))
def n_from_u32u(E, st, c, a):
    return [(s, a[0] if i == 0 else Panic('undefined behaviour: invalid char at ' + E.user_where(s)))
            for s, i in E.split(st, a[0], [T.CHAR, T.inot(T.CHAR)])]


@nat('<char as std::convert::TryFrom<u32>>::try_from', 'std::char::convert::<impl std::convert::TryFrom<u32> for char>::try_from')
def n_try_from_u32(E, st, c, a):
    ty = ret_ty(c)
    ety = E.p.types[ty]['args'][1]
    return [(s, ok(ty, a[0]) if i == 0 else err(ty, ('opq', ety, ('charerr',)))) for s, i in E.split(st, a[0], [T.CHAR, T.inot(T.CHAR)])]


@nat(*CH('len_utf8'))
def n_len_utf8(E, st, c, a):
    return clen(E, st, a[0])


@nat(*CH('len_utf16'))
def n_len_utf16(E, st, c, a):
    return [(s, i + 1) for s, i in E.split(st, a[0], [((0, 0xFFFF),), ((0x10000, 0x10FFFF),)])]


@nat(*CH('encode_utf8'))
def n_enc_utf8(E, st, c, a):
    return [(st, ('str', atoms_norm((('ch', a[0]),))))]


def utf16_units(E, st, c):
    out = []
    for s, i in E.split(st, c, [((0, 0xFFFF),), ((0x10000, 0x10FFFF),)]) if not isinstance(c, int) else [(st, int(c > 0xFFFF))]:
        if i == 0:
            out.append((s, [c]))
        else:
            x = T.sub(c, 0x10000)
            out.append((s, [T.add(T.shr(s.dom, x, 10), 0xD800), T.add(T.bitand(s.dom, x, 1023), 0xDC00)]))
    return out


@nat(*CH('encode_utf16'))
def n_enc_utf16(E, st, c, a):
    out = []
    for s, us in utf16_units(E, st, a[0]):
        out.append((s, ('ref', newcell(s, ('seq', tuple(('e', u) for u in us))), ())))
    return out


@nat(*STR('encode_utf16'))
def n_s_enc_utf16(E, st, c, a):
    return [(st, ('utf16', (), as_str(E, st, a[0])))]


@nat(*CH('to_ascii_uppercase'), *CH('to_ascii_lowercase'))
def n_ascii_case(E, st, c, a):
    up = c['sdef'].endswith('uppercase')
    v = deref(E, st, a[0]) if isinstance(a[0], tuple) and a[0][0] == 'ref' else a[0]
    s1 = ((97, 122),) if up else ((65, 90),)
    return [(s, T.add(v, -32 if up else 32) if i == 0 else v) for s, i in E.split(st, v, [s1, T.inot(s1)])]


@nat('<u32 as std::convert::From<char>>::from', 'std::char::convert::<impl std::convert::From<char> for u32>::from',
     'core::char::convert::<impl std::convert::From<char> for u32>::from', '<char as std::convert::From<u8>>::from',
     'core::char::convert::<impl std::convert::From<u8> for char>::from', 'std::char::convert::<impl std::convert::From<u8> for char>::from')
def n_u32_from_char(E, st, c, a):
    return [(st, a[0])]


# ------------------------------------------------------------------ numbers
NUMT = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def num(*ms):
    return ['core::num::<impl %s>::%s' % (t, m) for t in NUMT for m in ms]


@nat(*num('checked_add', 'checked_sub', 'checked_mul'))
def n_checked(E, st, c, a):
    ty = ret_ty(c)
    ity = E.p.types[ty]['args'][0]
    op = {'checked_add': 'Add', 'checked_sub': 'Sub', 'checked_mul': 'Mul'}[c['sdef'].split('::')[-1]]
    out = []
    for s, v in E.binop(st, op, a[0], a[1], ity, True, None):
        out.append((s, none(ty) if v[3][1] == 1 else some(E, ty, v[3][0])))
    return out


@nat(*num('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_shl', 'wrapping_shr', 'unchecked_add', 'unchecked_sub'))
def n_wrapping(E, st, c, a):
    ty = ret_ty(c)
    m = c['sdef'].split('::')[-1].split('_')[1]
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr'}[m]
    return E.binop(st, op, a[0], a[1], ty, False, ty)


@nat(*num('saturating_sub', 'saturating_add'))
def n_sat(E, st, c, a):
    ty = ret_ty(c)
    op = 'Sub' if c['sdef'].endswith('sub') else 'Add'
    d = E.type_dom(ty)
    out = []
    for s, v in E.binop(st, op, a[0], a[1], ty, True, None):
        if v[3][1] == 1:
            if d[0][0] == 0:
                out.append((s, 0 if op == 'Sub' else d[-1][1]))
            else:
                raise Undecided('signed saturation')
        else:
            out.append((s, v[3][0]))
    return out


@nat(*num('min', 'max'), 'std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max')
def n_minmax(E, st, c, a):
    if not (is_scalar(a[0]) and is_scalar(a[1])):
        return None
    mx = c['sdef'].endswith('max')
    return [(s, (a[1] if b == mx else a[0])) for s, b in E.branch(st, T.cmp('Lt', a[0], a[1]))]


FL = lambda *ms: ['%s::%s::<impl %s>::%s' % (p, t, t, m) for m in ms for p in ('core', 'std') for t in ('f32', 'f64')] + \
    ['%s::num::<impl %s>::%s' % (p, t, m) for m in ms for p in ('core', 'std') for t in ('f32', 'f64')]


@nat(*FL('is_finite', 'is_nan', 'is_infinite'))
def n_isfin(E, st, c, a):
    m = c['sdef'].split('::')[-1]
    v = a[0]
    if v[0] == 'ref':
        v = deref(E, st, v)
    if v[1][0] == 'f2f':
        return None
    cl = E.fclass(st, v[1])
    s = {'is_finite': ((0, 0),), 'is_nan': ((1, 1),), 'is_infinite': ((2, 3),)}[m]
    return E.member(st, cl, s)


@nat(*FL('abs'))
def n_fabs(E, st, c, a):
    return [(st, ('flt', ('abs', a[0][1])))]


@nat(*FL('trunc', 'floor', 'ceil', 'round', 'sqrt', 'fract'))
def n_fmisc(E, st, c, a):
    m = c['sdef'].split('::')[-1]
    return [(st, ('flt', (m, a[0][1])))]


def _conv(E, st, c, a):
    """From conversions between primitive numbers"""
    ty = ret_ty(c)
    t = E.p.types[ty]
    v = a[0]
    if is_scalar(v) and t['k'] in ('int', 'uint'):
        return [(st, v)]
    if is_scalar(v) and t['k'] == 'float':
        src = E.p.types[c['sig'][0][0]] if 'sig' in c else None
        return [(st, ('flt', ('i2f', src['str'] if src else '?', v, t['bits'])))]
    if isinstance(v, tuple) and v[0] == 'flt' and t['k'] == 'float':
        src = E.p.types[c['sig'][0][0]]
        return [(st, v if src['bits'] == t['bits'] else ('flt', ('f2f', src['bits'], t['bits'], v[1])))]
    return None


for _a in NUMT + ('f32', 'f64', 'bool'):
    for _b in NUMT + ('f32', 'f64'):
        for _p in ('core', 'std'):
            N['%s::convert::num::<impl std::convert::From<%s> for %s>::from' % (_p, _a, _b)] = _conv


# ------------------------------------------------------------------ ranges
@nat('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next', '<std::ops::Range<A> as std::iter::Iterator>::next')
def n_range_next(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    ty = ret_ty(c)
    lo, hi = v[3][0], v[3][1]
    out = []
    for s, b in E.branch(st, T.cmp('Lt', lo, hi)):
        if b:
            E.write(s, cell, path, ('agg', v[1], 0, (T.add(lo, 1), hi)))
            out.append((s, some(E, ty, lo)))
        else:
            out.append((s, none(ty)))
    return out


@nat('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def n_range_next_back(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    ty = ret_ty(c)
    lo, hi = v[3][0], v[3][1]
    out = []
    for s, b in E.branch(st, T.cmp('Lt', lo, hi)):
        if b:
            E.write(s, cell, path, ('agg', v[1], 0, (lo, T.sub(hi, 1))))
            out.append((s, some(E, ty, T.sub(hi, 1))))
        else:
            out.append((s, none(ty)))
    return out


@nat('std::ops::RangeInclusive::new')
def n_rangeincl(E, st, c, a):
    return [(st, ('agg', ret_ty(c), 0, (a[0], a[1], 0)))]


@nat('std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next')
def n_rangeincl_next(E, st, c, a):
    cell, path, v = loc(E, st, a[0])
    ty = ret_ty(c)
    lo, hi, ex = v[3]
    if ex == 1:
        return [(st, none(ty))]
    out = []
    for s, b in E.branch(st, T.cmp('Lt', lo, hi)):
        if b:
            E.write(s, cell, path, ('agg', v[1], 0, (T.add(lo, 1), hi, 0)))
            out.append((s, some(E, ty, lo)))
            continue
        for s2, b2 in E.branch(s, T.cmp('Eq', lo, hi)):
            E.write(s2, cell, path, ('agg', v[1], 0, (lo, hi, 1)))
            out.append((s2, some(E, ty, lo) if b2 else none(ty)))
    return out


@nat('std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::range::RangeInclusive::contains')
def n_rcontains(E, st, c, a):
    v = deref(E, st, a[0])
    x = deref(E, st, a[1]) if isinstance(a[1], tuple) and a[1][0] == 'ref' else a[1]
    lo, hi = v[3][0], v[3][1]
    incl = 'Inclusive' in E.p.types[v[1]]['def']
    if not is_scalar(x):
        return None
    out = []
    for s, b in E.branch(st, T.cmp('Le', lo, x)):
        if not b:
            out.append((s, 0))
        else:
            out += [(s2, int(b2)) for s2, b2 in E.branch(s, T.cmp('Le' if incl else 'Lt', x, hi))]
    return out
