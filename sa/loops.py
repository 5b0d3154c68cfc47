"""Loop heads: garbage collection, canonical renaming, coverage (fixpoint) check and widening."""
from . import terms as T
from .terms import is_term, domain
from .core import Engine, St, Undecided, Panic, atoms_norm, cell_char

def base_of(X):
    while isinstance(X, tuple) and X and X[0] in ('refs', 'entrefs', 'keyrefs', 'valrefs', 'cl'):
        X = X[1]
    return X


REN = ('w', 'x', 'b')          # ('w', n) generalised value, ('x', n) forgotten cell, ('b', n) heap box


def loop_body(prog, key, head):
    c = prog.__dict__.setdefault('_bodies', {})
    r = c.get((key, head))
    if r is not None:
        return r
    f = prog.fns[key]
    pred = {}
    for i, b in enumerate(f['blocks']):
        for s in prog.succ(b['t']):
            pred.setdefault(s, []).append(i)
    # blocks not dominated by head
    out = set()
    st = [0] if head != 0 else []
    while st:
        x = st.pop()
        if x in out:
            continue
        out.add(x)
        st += [y for y in prog.succ(f['blocks'][x]['t']) if y != head]
    # the natural loop of the back edges into head
    body = {head}
    st = [q for q in pred.get(head, []) if q not in out]
    while st:
        x = st.pop()
        if x in body:
            continue
        body.add(x)
        st += [q for q in pred.get(x, []) if q not in out]
    c[(key, head)] = body
    return body


class Canon:
    """renames everything that is not rooted in the analysed program's parameters"""

    def __init__(self, st, E):
        self.st = st
        self.E = E
        self.map = {}
        self.memo = {}
        self.cnt = {'w': 0, 'x': 0, 'b': 0, 'wi': 0, 'f': 0, 'j': 0}
        self.base = {}
        self.queue = []
        self.frozen = False

    def fresh(self, kind):
        self.cnt[kind] += 1
        return self.cnt[kind]

    def lookup(self, v, kind, mk):
        r = self.map.get(v)
        if r is None:
            if self.frozen:
                raise KeyError(v)
            r = self.map[v] = mk(self.fresh(kind))
        return r

    def rw(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        r = self.memo.get(v)
        if r is not None:
            return r
        t = v[0]
        if t == 'sym' and len(v) > 2:
            k = v[1]
            if k == 'c':
                name = v[2]
                b = self.base.get(name, 0)
                if v[3] >= b:
                    r = ('sym', 'c', self.rw(name), v[3] - b)
                else:
                    r = self.lookup(v, 'x', lambda n: ('sym', 'xc', n))
            elif k == 'xc':
                r = self.lookup(v, 'x', lambda n: ('sym', 'xc', n))
            elif k == 'wi':
                r = self.lookup(v, 'wi', lambda n: ('sym', 'wi', n))
            elif k == 'f':
                r = self.lookup(v, 'f', lambda n: ('sym', 'f', n))
            elif k == 'streq':
                r = v[:2] + tuple(sorted((self.rw(v[2]), self.rw(v[3])), key=T.akey))
            else:
                r = tuple(self.rw(x) for x in v)
        elif t in REN and len(v) == 2 and isinstance(v[1], int):
            r = self.lookup(v, t, lambda n: (t, n))
        elif t == 'j' and len(v) == 2 and isinstance(v[1], int):
            r = self.lookup(v, 'j', lambda n: ('j', n))
        elif t == 'el' and len(v) == 3:
            b = self.base.get(v[1], 0) if isinstance(v[2], int) else -1
            if b < 0:
                r = ('el', self.rw(v[1]), v[2])
            elif v[2] >= b:
                r = ('el', self.rw(v[1]), v[2] - b)
            else:
                r = self.lookup(v, 'x', lambda n: ('x', n))
        elif t == 'ts' and v[4] == 'E':
            b = self.base.get(base_of(v[1]), 0)
            lo = v[3]
            if lo != 'P':
                lo = lo - b if lo >= b else 'P'
            r = ('ts', self.rw(v[1]), v[2], lo, v[4], v[5])
        elif t == 'in':
            b = self.base.get(v[1], 0)
            lo = v[2]
            if lo != 'P':
                lo = lo - b if lo >= b else 'P'
            r = ('in', self.rw(v[1]), lo, v[3])
        elif t == 'lin':
            r = T.mk(v[1], {self.rw(a): k for a, k in v[2]})
        elif t == 'map':
            r = ('map', self.rw(v[1]), tuple(sorted((self.rw(u) for u in v[2]), key=lambda u: T.akey(u[0]))), v[3], v[4])
        elif t in ('ref', 'box'):
            r = tuple(self.rw(x) for x in v)
            self.queue.append(v[1])
        else:
            r = tuple(self.rw(x) for x in v)
        self.memo[v] = r
        return r


def find_cursors(v, acc, seen):
    if not isinstance(v, tuple) or not v or v in seen:
        return
    seen.add(v)
    t = v[0]
    if t == 'in':
        if v[2] != 'P' and v[3] == 'E':
            acc[v[1]] = min(acc.get(v[1], 1 << 60), v[2])
        return
    if t == 'ts':
        if v[4] == 'E' and v[3] != 'P':
            B = base_of(v[1])
            acc[B] = min(acc.get(B, 1 << 60), v[3])
        find_cursors(v[1], acc, seen)
        return
    if t in ('chars', 'chind', 'bytes', 'utf16'):
        for a in (v[1] if t in ('chars', 'chind') else v[2]):
            if a[0] == 'S':
                acc[a[1]] = 0
    elif t == 'S' and len(v) == 2:
        acc.setdefault(('plain', v[1]), 0)
    elif t == 't' and len(v) == 5:
        acc.setdefault(('plain', base_of(v[1])), 0)
    for x in v:
        if isinstance(x, tuple):
            find_cursors(x, acc, seen)


def flatten_ranges(E, st, v, memo):
    """expand finished sub-ranges of a stream into characters"""
    if not isinstance(v, tuple) or not v:
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if v[0] in ('str', 'chars') and isinstance(v[1], tuple):
        r = (v[0], E.flat(st, v[1])) + v[2:]
    elif v[0] in ('sym', 'lin', 'op'):
        r = v
    else:
        r = tuple(flatten_ranges(E, st, x, memo) if isinstance(x, tuple) else x for x in v)
    memo[v] = r
    return r


def canonical(E, st):
    """GC + rebase + rename; returns a new state"""
    fr = st.fr
    prog = E.p
    keep = {}
    for d, (key, bb, dest, ret) in enumerate(fr):
        live, taken = prog.live(key)
        if d == len(fr) - 1:
            lv = live[bb]
        else:
            rb = fr[d + 1][3]
            lv = live[rb] if rb is not None else frozenset()
            # values used while the callee runs (a nested run) stay
            if rb is None:
                lv = frozenset(range(len(prog.fns[key]['locals'])))
        for n in range(len(prog.fns[key]['locals'])):
            c = (d, n)
            if c in st.heap and n in lv:
                keep[c] = st.heap[c]
    memo = {}
    fmemo = {}
    # reachability of heap cells
    reach = dict(keep)
    work = list(keep.values()) + [st.mon]
    scan_seen = set()

    def scan(v):
        if isinstance(v, dict):
            for k in v:
                scan(v[k])
            return
        if not isinstance(v, tuple) or not v or v in scan_seen:
            return
        scan_seen.add(v)
        if v[0] in ('ref', 'box') and len(v) >= 2 and isinstance(v[1], tuple):
            c = v[1]
            if c not in reach and c in st.heap:
                reach[c] = st.heap[c]
                scan(st.heap[c])
        for x in v:
            if isinstance(x, tuple):
                scan(x)
    for v in work:
        scan(v)
    for d, (key, bb, dest, ret) in enumerate(fr):
        if dest is not None and dest[0] in st.heap and dest[0] not in reach:
            # written later; content irrelevant unless partially written
            if dest[1]:
                reach[dest[0]] = st.heap[dest[0]]
                scan(st.heap[dest[0]])
    reach = {c: flatten_ranges(E, st, v, fmemo) for c, v in reach.items()}
    mon = {k: flatten_ranges(E, st, v, fmemo) for k, v in st.mon.items()}
    cur = {}
    seen = set()
    for v in reach.values():
        find_cursors(v, cur, seen)
    C = Canon(st, E)
    for name, (known, ended, sh) in st.streams.items():
        dflt = 0 if ('plain', name) in cur and not sh and known <= E.keep_plain else known
        C.base[name] = min(cur.get(name, dflt), known)
    for k in list(mon):
        if k[0] == 'pos' and mon[k] < C.base.get(k[1], 0):
            if E.monitor is not None and E.monitor.need(E, st) == k[1]:
                C.base[k[1]] = mon[k]
            else:
                del mon[k]
    r = St()
    # traversal order: locals, then boxes as met, then monitor registers
    order = sorted(c for c in reach if isinstance(c[0], int))
    done = set()
    heap = {}
    for c in order:
        heap[c] = C.rw(reach[c])
        done.add(c)
    while C.queue:
        c = C.queue.pop(0)
        if c in done or c not in reach:
            continue
        done.add(c)
        heap[C.rw(c)] = C.rw(reach[c])
    r.mon = {}
    for k in sorted(mon, key=repr):
        if k[0] == 'pos':
            r.mon[('pos', C.rw(k[1]))] = mon[k] - C.base.get(k[1], 0)
        else:
            r.mon[C.rw(k)] = C.rw(mon[k])
    while C.queue:
        c = C.queue.pop(0)
        if c in done or c not in reach:
            continue
        done.add(c)
        heap[C.rw(c)] = C.rw(reach[c])
    for c in reach:
        if c not in done:
            heap[C.rw(c)] = C.rw(reach[c])
    r.heap = heap
    r.fr = tuple((k, bb, None if dest is None else (C.rw(dest[0]), C.rw(dest[1])), ret) for k, bb, dest, ret in fr)
    ev = C.rw(st.ev)
    C.frozen = True
    met = set(C.memo)
    r.ev = ev
    r.streams = {}
    for name, (known, ended, sh) in st.streams.items():
        try:
            b = C.base[name]
            nn = C.rw(name)
            if name not in met and has_forgotten(nn):
                continue
            r.streams[nn] = (known - b, ended, 1 if (sh or b) else 0)
        except KeyError:
            pass
    dom = {}
    for k, d in st.dom.items():
        try:
            if k[0] == 'sym' and k[1] == 'c' and k not in C.memo and k[3] < C.base.get(k[2], 0):
                continue
            nk = C.rw(k)
        except KeyError:
            continue
        if nk in dom:
            d = T.iand(dom[nk], d)
        dom[nk] = d
    r.dom = dom
    r.n = max(C.cnt.values()) + 1
    r.hist = st.hist
    r.trace = st.trace
    r.approx = st.approx
    return r


def has_forgotten(v):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ('x', 'w', 'j') and len(v) == 2 and isinstance(v[1], int):
        return True
    return any(has_forgotten(x) for x in v if isinstance(x, tuple))


def image(st):
    return (st.fr, frozenset(st.heap.items()), frozenset(st.mon.items()), frozenset(st.streams.items()), st.ev,
            frozenset(st.dom.items()))


def skel(v, ints):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v if ints else 'N'
    if not isinstance(v, tuple) or not v:
        return v
    t = v[0]
    if t == 'ctl':
        return v
    if t == 'str' and not v[1]:
        return 'STR0'
    if t in ('str', 'seq', 'map', 'flt'):
        return t.upper()
    if t in ('sym', 'lin', 'op', 'pw', 'sel'):
        return 'T' if ints else 'N'
    if t in ('cmp', 'not'):
        return 'B'
    if t == 'agg':
        return ('agg', v[1], v[2]) + tuple(skel(x, ints) for x in v[3])
    if t == 'opq':
        return ('opq', v[1])
    if t == 'ref' and v[1][0] == 'o':
        return ('refo', v[1][2], v[2])
    return tuple(skel(x, ints) for x in v)


def sk_state(st, ints):
    h = tuple(sorted(((repr(c), skel(v, ints)) for c, v in st.heap.items() if c[0] != 'o'), key=lambda x: x[0]))
    m = tuple(sorted(((repr(k), skel(v, ints)) for k, v in st.mon.items()), key=lambda x: x[0]))
    s = tuple(sorted((repr(k), v) for k, v in st.streams.items() if k[0] != 'w'))
    return (st.fr, h, m, s)


def skdiff(a, b):
    if a == b:
        return 0
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return sum(skdiff(x, y) for x, y in zip(a, b))
    return 1


# bounds tried before a widened bound is given up
STEPS = tuple(sorted([(1 << k) - 1 for k in (4, 7, 8, 11, 12, 16, 20, 24, 32)] + [0xD7FF, 0xDBFF, 0xDFFF, 0x10FFFF]))
LOWS = (0, 32, 0x80, 0x800, 0xD800, 0xDC00, 0xE000, 0x10000)


class Mismatch(Exception):
    pass


class Widen:
    def __init__(self, E, old, new, rank, join=False):
        self.E = E
        self.join = join
        self.old = old
        self.new = new
        self.rank = rank
        self.pairs = []
        self.ipairs = []
        self.out = new.copy()
        self.out.n = max(old.n, new.n) + 100
        self.sub = {}
        self.changed = False

    def sym(self):
        self.out.n += 1
        return self.out.n

    # -- pass 1: collect differing leaves
    def collect(self, a, b):
        if a == b:
            return
        if isinstance(a, int) or isinstance(b, int) or is_term(a) or is_term(b):
            if T.is_scalar(a) and T.is_scalar(b):
                if (is_term(a) and a[0] in ('cmp', 'not')) or (is_term(b) and b[0] in ('cmp', 'not')):
                    raise Mismatch()
                self.ipairs.append((a, b))
                return
            raise Mismatch()
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            raise Mismatch()
        if a[0] != b[0]:
            raise Mismatch()
        t = a[0]
        if t == 'ctl':
            raise Mismatch()
        if t in ('str', 'seq'):
            self.pairs.append((t, a, b))
            return
        if t == 'map':
            self.pairs.append((t, a, b))
            return
        if t == 'flt':
            self.pairs.append((t, a, b))
            return
        if t == 'opq':
            if a[1] != b[1]:
                raise Mismatch()
            self.pairs.append((t, a, b))
            return
        if t == 'ref' and a[1][0] == 'o' and b[1][0] == 'o' and a[1][2] == b[1][2] and a[2] == b[2]:
            self.pairs.append((t, a, b))
            return
        if len(a) != len(b):
            raise Mismatch()
        for x, y in zip(a, b):
            self.collect(x, y)

    def strip(self, t, a, b):
        """common literal prefix/suffix: (pre, a', b', suf)"""
        A, B = list(a[1]), list(b[1])
        pre, suf = [], []
        if t == 'str':
            while A and B:
                x, y = A[0], B[0]
                if x[0] == 'lit' and y[0] == 'lit':
                    n = 0
                    while n < len(x[1]) and n < len(y[1]) and x[1][n] == y[1][n]:
                        n += 1
                    if not n:
                        break
                    pre.append(('lit', x[1][:n]))
                    A[0:1] = [('lit', x[1][n:])] if n < len(x[1]) else []
                    B[0:1] = [('lit', y[1][n:])] if n < len(y[1]) else []
                else:
                    break
            while A and B:
                x, y = A[-1], B[-1]
                if x[0] == 'lit' and y[0] == 'lit':
                    n = 0
                    while n < len(x[1]) and n < len(y[1]) and x[1][-1 - n] == y[1][-1 - n]:
                        n += 1
                    if not n:
                        break
                    suf.insert(0, ('lit', x[1][len(x[1]) - n:]))
                    A[-1:] = [('lit', x[1][:-n])] if n < len(x[1]) else []
                    B[-1:] = [('lit', y[1][:-n])] if n < len(y[1]) else []
                else:
                    break
        else:
            while A and B and A[0] == B[0] and A[0][0] == 'e':
                pre.append(A.pop(0))
                B.pop(0)
            while A and B and A[-1] == B[-1] and A[-1][0] == 'e':
                suf.insert(0, A.pop())
                B.pop()
        return tuple(pre), tuple(A), tuple(B), tuple(suf)

    def shorter(self, a, b):
        """another pair of strings that these extend by a few characters"""
        tail = []
        while len(tail) < 3:
            if not a[1] or not b[1] or a[1][-1][0] != 'ch' or b[1][-1][0] != 'ch':
                return None
            tail.insert(0, (a[1][-1][1], b[1][-1][1]))
            a, b = ('str', a[1][:-1]), ('str', b[1][:-1])
            if a == b or ('str', a, b) in self.pairset:
                return a, b, tail
        return None

    def elem_ty(self, segs):
        for s in segs:
            if s[0] == 't':
                return s[2]
            v = s[1]
            if isinstance(v, tuple):
                if v[0] in ('agg', 'opq') and v[1] is not None:
                    return v[1]
                if v[0] == 'str':
                    return self.E.p.tyname.get('std::string::String', self.E.p.tyname.get('&str'))
                if v[0] == 'ref' and v[1][0] == 'o':
                    for i, t in enumerate(self.E.p.types):
                        if t['k'] == 'ref' and t['elem'] == v[1][2]:
                            return i
            if T.is_scalar(v):
                return self.E.p.tyname.get('char')
        return None

    def gen_pair(self, t, a, b):
        k = (t, a, b)
        r = self.sub.get(k)
        if r is not None:
            return r
        if t in ('str', 'seq'):
            sh = self.shorter(a, b) if t == 'str' else None
            if sh is not None:
                a2, b2, tail = sh
                pre = (b2 if a2 == b2 else self.gen_pair(t, a2, b2))[1]
                r = (t, atoms_norm(pre + tuple(('ch', self.gen_int(x, y) if x != y else y) for x, y in tail)))
                self.sub[k] = r
                self.changed = True
                return r
            pre, A, B, suf = self.strip(t, a, b)
            k2 = (t, 'core', A, B)
            w = B if A == B else self.sub.get(k2)
            if w is None:
                name = ('w', self.sym())
                if t == 'str':
                    w = (('S', name),)
                    na = self.E.str_nonempty(self.old, A)
                    nb = self.E.str_nonempty(self.new, B)
                    if na is True and nb is True:
                        self.out.streams[name] = (1, 0, 0)
                        self.out.dom = dict(self.out.dom)
                        self.out.dom[cell_char(name, 0)] = T.ior(self.first(self.old, A), self.first(self.new, B))
                else:
                    ety = self.elem_ty(B) if B else self.elem_ty(A)
                    w = (('t', name, ety, 0, ('sym', 'len', name)),)
                    la = domain(self.old.dom, self.E.seq_len(('seq', A)))
                    lb = domain(self.new.dom, self.E.seq_len(('seq', B)))
                    self.out.dom = dict(self.out.dom)
                    self.out.dom[('sym', 'len', name)] = ((1 if la[0][0] >= 1 and lb[0][0] >= 1 else 0, (1 << 63) - 1),)
                self.sub[k2] = w
            r = (t, atoms_norm(pre + w + suf)) if t == 'str' else (t, pre + w + suf)
        elif t == 'map':
            r = ('map', ('w', self.sym()), (), b[3], b[4])
            if map_nonempty(self.old, a) and map_nonempty(self.new, b):
                self.out.dom = dict(self.out.dom)
                self.out.dom[('sym', 'mlen', r[1])] = ((1, (1 << 63) - 1),)
        elif t == 'flt':
            r = ('flt', ('w', self.sym()))
        elif t == 'opq':
            r = ('opq', b[1], ('w', self.sym()))
        elif t == 'ref':
            r = ('ref', ('o', ('w', self.sym()), b[1][2]), b[2])
        self.sub[k] = r
        self.changed = True
        return r

    def first(self, st, at):
        a = at[0]
        if a[0] == 'lit':
            return ((ord(a[1][0]), ord(a[1][0])),)
        if a[0] == 'ch':
            return domain(st.dom, a[1])
        if a[0] == 'S' and self.E.stream(st, a[1])[0] > 0 and not self.E.stream(st, a[1])[2]:
            return domain(st.dom, cell_char(a[1], 0))
        return T.CHAR

    def gen_int(self, a, b):
        k = ('int', a, b)
        r = self.sub.get(k)
        if r is not None:
            return r
        for (a0, b0), w in list(self.sub.get('ibase', {}).items()):
            d1, d2 = T.sub(a, a0), T.sub(b, b0)
            if isinstance(d1, int) and d1 == d2:
                r = T.add(w, d1)
                self.sub[k] = r
                return r
        ra, rb, acc = a, b, 0
        for (a0, b0), w in list(self.sub.get('ibase', {}).items()):
            k1 = ratio(ra, a0) or ratio(rb, b0)
            if k1:
                ra, rb, acc = T.sub(ra, T.scale(a0, k1)), T.sub(rb, T.scale(b0, k1)), T.add(acc, T.scale(w, k1))
                if ra == rb:
                    r = T.add(acc, ra)
                    self.sub[k] = r
                    return r
        da, db = domain(self.old.dom, a), domain(self.new.dom, b)
        ischar = T.isubset(da, T.CHAR) and T.isubset(db, T.CHAR) and (a_is_char(a) or a_is_char(b))
        if ischar:
            d = T.ior(da, db)
            if self.rank > 4 and d != da:
                d = T.CHAR
        else:
            lo = da[0][0] if db[0][0] >= da[0][0] else max((h for h in LOWS if h <= db[0][0]), default=-T.INF)
            hi = da[-1][1] if db[-1][1] <= da[-1][1] else T.INF
            if hi == T.INF and self.rank < 60 and not isinstance(T.sub(b, a), int) and not (isinstance(a, tuple) and a[0] == 'sym' and a[1] == 'wi' and self.old.dom.get(a, T.TOP)[-1][1] == T.INF):
                hi = min((h for h in STEPS if h >= db[-1][1]), default=T.INF)
            u = T.ior(da, db)
            d = T.ior(u, ((lo, u[0][0]), (u[-1][1], hi))) if len(u) <= 6 and self.rank < 60 else holed(lo, hi, u)
        w = ('sym', 'wi', self.sym())
        self.out.dom = dict(self.out.dom)
        self.out.dom[w] = d
        self.sub[k] = w
        self.sub.setdefault('ibase', {})[(a, b)] = w
        self.changed = True
        return w

    def rebuild(self, a, b):
        if a == b:
            return b
        if T.is_scalar(b):
            return self.gen_int(a, b)
        t = b[0]
        if t in ('str', 'seq', 'map', 'flt', 'opq') or (t == 'ref' and a[1][0] == 'o' and a[1] != b[1]):
            return self.gen_pair(t, a, b)
        return tuple(self.rebuild(x, y) for x, y in zip(a, b))

    def run(self):
        o, n = self.old, self.new
        keys = set(c for c in n.heap if c[0] != 'o')
        if keys != set(c for c in o.heap if c[0] != 'o') or set(o.mon) != set(n.mon):
            raise Mismatch()
        for c in sorted(keys, key=repr):
            self.collect(o.heap[c], n.heap[c])
        for k in sorted(n.mon, key=repr):
            self.collect(o.mon[k], n.mon[k])
        if not self.pairs and not self.ipairs and not self.join:
            return None
        if self.join:
            dom = self.out.dom = dict(n.dom)
            for k, d in n.dom.items():
                d0 = o.dom.get(k)
                if d0 is None or d0 == d:
                    continue
                j = T.ior(d0, d)
                if k[0] == 'sym' and k[1] in ('c', 'xc'):
                    if self.rank > 40:
                        j = T.CHAR
                elif j != d0:
                    lo = j[0][0] if j[0][0] == d0[0][0] or self.rank < 6 else max((h for h in LOWS if h <= j[0][0]), default=-T.INF)
                    up = min((h for h in STEPS if h >= j[-1][1]), default=T.INF) if self.rank < 60 else T.INF
                    hi = j[-1][1] if j[-1][1] == d0[-1][1] or self.rank < 6 else up
                    if len(j) > 6 or self.rank >= 60:
                        j = holed(lo, hi, j)
                    elif lo < j[0][0] or hi > j[-1][1]:
                        j = T.ior(j, ((lo, j[0][0]), (j[-1][1], hi)))
                if j != d:
                    dom[k] = j
                    self.changed = True
        self.pairset = set(self.pairs)
        for c in sorted(keys, key=lambda c: (not T.is_scalar(n.heap[c]), repr(c))):
            self.out.heap[c] = self.rebuild(o.heap[c], n.heap[c])
        for k in sorted(n.mon, key=repr):
            self.out.mon[k] = self.rebuild(o.mon[k], n.mon[k])
        return self.out


def map_nonempty(st, m):
    if any(p == 1 for k, p, v in m[2]):
        return True
    return m[1] is not None and all(p == 1 for k, p, v in m[2]) and st.dom.get(('sym', 'mlen', m[1]), T.TOP)[0][0] >= 1


def holed(lo, hi, u):
    """lo..hi without the surrogate code points when u has none"""
    return T.iand(((lo, hi),), T.CHAR) if lo >= 0 and hi <= 0x10FFFF and T.isubset(u, T.CHAR) else ((lo, hi),)


def ratio(a, a0):
    """k such that a - k*a0 loses the leading atom of a0, or 0"""
    p0 = T.parts(a0)[1]
    if not p0:
        return 0
    x, k0 = max(p0, key=lambda y: abs(y[1]))
    k = dict(T.parts(a)[1]).get(x, 0)
    return k // k0 if k % k0 == 0 else 0


def a_is_char(a):
    return isinstance(a, tuple) and a[0] == 'sym' and a[1] in ('c', 'xc')


def loop_head(self, st, key, bb, seen):
    out = []
    sts = [st]
    if self.monitor is not None:
        sts = self.monitor.advance(self, st)
    for s in sts:
        if isinstance(s, tuple):
            out.append(s)
            continue
        out += self.loop_head1(s, key, bb, seen)
    return out


def shape(v):
    """how many elements and members a value under construction holds"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'seq':
        return len(v[1]) or None
    if v[0] == 'str':
        return max((len(chr(x[1]).encode('utf-8', 'replace')) if isinstance(x[1], int) else max(len(c.encode('utf-8', 'replace')) for c in x[1])
                    for x in v[1] if x[0] == 'lit' and x[1] or x[0] == 'ch' and isinstance(x[1], int)), default=1) - 1 or None
    if v[0] == 'map':
        return tuple(sorted((shape(x[2]) for x in v[2]), key=repr)) or None
    if v[0] == 'agg':
        r = tuple(shape(x) for x in v[3])
        return r if any(x is not None for x in r) else None
    return None


def prog_count(st):
    return st.hist.get('#', 0)


def within(p, h, stack):
    """is the loop head `stack` inside an iteration of the loop at h"""
    n = len(h)
    if n > len(stack) or h == stack or h[:-1] != stack[:n - 1] or h[-1][0] != stack[n - 1][0]:
        return False
    return h[-1][1] != stack[n - 1][1] and stack[n - 1][1] in loop_body(p, h[-1][0], h[-1][1])


def own_buffer(n):
    """a text or sequence under construction that was widened, as opposed to input"""
    while isinstance(n, tuple) and n and n[0] == 'trim':
        n = n[1]
    return isinstance(n, tuple) and n and n[0] == 'w'


def read_so_far(st):
    return sum(k for n, (k, e, s) in st.streams.items() if not own_buffer(n))


class Ways:
    """the graph of the states at loop heads: which of them lead out"""
    def __init__(self):
        self.ids = {}
        self.succ = {}
        self.state = {}
        self.out = set()
        self.met = False

    def edge(self, st, img, c=None):
        self.met = True
        n = self.ids.setdefault(img, len(self.ids))
        p = st.hist.get('#node')
        if p is not None:
            self.succ.setdefault(p, set()).add(n)
        if c is not None and n not in self.state:
            self.state[n] = c
        return n

    def leave(self, st):
        p = st.hist.get('#node')
        if p is not None:
            self.out.add(p)

    def stuck(self):
        """the states, not generalised, from which nothing leads out"""
        pred = {}
        for a, bs in self.succ.items():
            for b in bs:
                pred.setdefault(b, set()).add(a)
        good = set(self.out)
        work = list(good)
        while work:
            for a in pred.get(work.pop(), ()):
                if a not in good:
                    good.add(a)
                    work.append(a)
        return [c for n, c in self.state.items() if n not in good and not c.approx and self.succ.get(n)]


def loop_head1(self, st, key, bb, seen):
    total = sum(k for k, e, s in st.streams.values())
    shift0 = st.hist.get('#shift', 0)
    inp = read_so_far(st)
    c = canonical(self, st)
    inshift = st.hist.get('#in', 0) + max(0, inp - read_so_far(c))
    inprog = inshift + read_so_far(c)
    after = sum(k for k, e, s in c.streams.values())
    shift = shift0 + max(0, total - after)
    prog = shift + after
    stack = tuple((k, b) for k, b, _, _ in c.fr)
    body = loop_body(self.p, key, bb)
    n = len(stack)
    hist = {}
    for h, v in c.hist.items():
        if isinstance(h, tuple):
            if len(h) > n:
                continue
            if len(h) == n and h != stack and h[:-1] == stack[:-1] and h[-1][0] == key and h[-1][1] in body and h[-1][1] != bb:
                continue
            if len(h) == n and h[:-1] != stack[:-1]:
                continue
        hist[h] = v
    hist['#shift'] = shift
    hist['#in'] = inshift
    anc = hist.get(stack, ())
    img = image(c)
    if anc and anc[-1][1] == img and anc[-1][3] == prog:
        return [(c, Panic('infinite loop: no progress at %s' % self.user_where(c)))]
    self.loop_stats.setdefault((self.p.fns[key]['name'], bb), [0, 0])[0] += 1
    zero = getattr(self, 'zero', None)
    if zero is not None and anc and anc[-1][5] == inprog and anc[-1][3] == prog:
        zero = zero.setdefault(stack, {}).setdefault(anc[-1][1], set())
        zero.add(img)
    else:
        zero = None
    ways = getattr(self, 'ways', None)
    if img in seen:
        if ways is not None:
            ways.edge(c, img)
        return []
    sk = sk_state(c, True)
    same = [a for a in anc if a[0] == sk]
    w = None
    delay, consts = self.widen_delay, self.max_consts
    if self.inner_delay and any(within(self.p, h, stack) for h in hist if isinstance(h, tuple)):
        delay, consts = max(delay, self.inner_delay), max(consts, self.inner_delay)
    if len(same) > delay:
        w = (same[-1], len(same))
    else:
        sk2 = sk_state(c, False)
        blind = [a for a in anc if a[4] == sk2]
        if len(blind) > consts:
            w = (min(reversed(blind), key=lambda a: skdiff(a[0], sk)), len(blind))
    sib = self.sibs.setdefault((stack, sk), [0, None, 0])
    sib[0] += 1
    if self.cut is not None:
        sh = hist['#shape'] = tuple(sorted(filter(None, (shape(v) for v in c.heap.values())), key=repr))
        k = (stack, sk, c.cov, sh)
        hist['#n'] = hist.get('#n', 0) + 1
        self.kept[k] += 1
        if self.kept[k] > self.cap and self.rnd.random() > self.cap / self.kept[k]:
            self.cut += 1           # a sample of the states of one shape and history
            return []
    if sib[0] > self.sib_max and sib[1] is not None:
        w = ((None, None, sib[1]), sib[2])
    if w is not None and self.cut is not None:
        self.cut += 1
        return []
    if w is not None:
        try:
            r = Widen(self, w[0][2], c, w[1], w[0][0] is None).run()
        except Mismatch:
            r = None
        if r is not None:
            r.fr = c.fr
            r.hist = {}
            r.trace = c.trace
            r.approx = True
            c2 = canonical(self, r)
            c2.hist = {}
            img2 = image(c2)
            if zero is not None:
                zero.add(img2)
            self.loop_stats[(self.p.fns[key]['name'], bb)][1] += 1
            if img2 in seen:
                if ways is not None:
                    ways.edge(c, img2)
                return []
            if len(anc) > 200:
                raise Undecided('loop does not stabilise at %s' % self.where(c))
            c = c2
            img = img2
            sk = sk_state(c, True)
    if len(anc) > 400:
        raise Undecided('loop does not stabilise at %s' % self.where(c))
    if getattr(self, 'dbg', None) and self.dbg == '%s:%d' % (self.p.fns[key]['name'].split('::')[-1], bb):
        X = lambda o: str(o).replace(str(('trim', ('p', 1), ((9, 10), (13, 13), (32, 32)), (True, True))), 'T')
        print('HEAD', [(k, X(v)[:140]) for k, v in c.heap.items() if k[0] == n - 1], 'MON', X(c.mon), 'DOM', {X(k): v for k, v in c.dom.items()}, X(c.streams), 'anc', len(anc), 'same', len(same), w is not None)
    seen[img] = True
    hist = dict(hist)
    snap = c.copy()
    snap.trace = None
    snap.hist = {}
    if sib[1] is None or w is not None:
        sib[1] = snap
        sib[2] += w is not None and w[0][0] is None
    hist[stack] = anc + ((sk, img, snap, prog, sk_state(c, False), inprog),)
    if ways is not None:
        hist['#node'] = ways.edge(st, img, c)
    c.hist = hist
    return [c]


Engine.loop_head = loop_head
Engine.loop_head1 = loop_head1
