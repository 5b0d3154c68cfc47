"""Abstract interpreter over monomorphic MIR (see DESIGN.md).

States are disjuncts of a trace-partitioned abstract domain; loops are cut at loop heads, where a state is
canonicalised, compared with the states already covered and, if its lineage has been there before, widened.
"""
import collections
import heapq
import os
import random
import re
import sys
import time
from . import terms as T
from .terms import is_scalar, is_term, domain, decide, assume, restrict

sys.setrecursionlimit(20000)
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1


class Undecided(Exception):
    pass


class Budget(Undecided):
    pass


class Panic:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class Undec(Panic):
    """the end of a path the analysis cannot follow"""


NAMED = {'And', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Mul', 'Div', 'Rem', 'trunc', 'wrap'}


def mentions_op(v):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'op' and len(v) > 1 and v[1] in NAMED:
        return True
    return any(mentions_op(x) for x in v if isinstance(x, tuple))


class Fair:
    """work list of the exact pass: takes turns: oldest first, simplest and deepest first, least visited place first"""

    def __init__(self):
        self.q = collections.deque()
        self.h = []
        self.g = []
        self.count = collections.Counter()
        self.n = self.t = 0
        self.live = set()

    def __len__(self):
        return len(self.live)

    def append(self, s):
        k = (tuple(f[:2] for f in s.fr), tuple(v for v in s.mon.values() if isinstance(v, tuple) and v and v[0] == 'ctl'), s.cov, s.hist.get('#shape'))
        self.count[k] += 1
        self.n += 1
        self.live.add(self.n)
        self.q.append((self.n, s))
        heapq.heappush(self.h, (self.count[k], self.n, s))
        heapq.heappush(self.g, (s.cov.bit_count(), -s.hist.get('#n', 0), self.n, s))

    def pop(self):
        self.t += 1
        while True:
            m = self.t % 3
            x = self.q.popleft() if m == 0 and self.q else heapq.heappop(self.g)[2:] if m == 1 and self.g else heapq.heappop(self.h)[1:]
            if x[0] in self.live:
                self.live.discard(x[0])
                return x[1]


class St:
    __slots__ = ('fr', 'heap', 'dom', 'streams', 'mon', 'hist', 'n', 'trace', 'ev', 'approx', 'cov')

    def __init__(s):
        s.fr = ()
        s.heap = {}
        s.dom = {}
        s.streams = {}
        s.mon = {}
        s.hist = {}
        s.n = 0
        s.trace = None
        s.ev = ()
        s.cov = 0            # blocks passed (bounded pass)
        s.approx = False     # went through a widening or join

    def copy(s):
        r = St.__new__(St)
        r.fr = s.fr
        r.heap = dict(s.heap)
        r.dom = s.dom
        r.streams = dict(s.streams)
        r.mon = dict(s.mon)
        r.hist = dict(s.hist)
        r.n = s.n
        r.trace = s.trace
        r.ev = s.ev
        r.approx = s.approx
        r.cov = s.cov
        return r

    def fresh(s, *name):
        s.n += 1
        return ('sym',) + name + (s.n,)

    def note(s, msg):
        s.trace = (s.trace, msg)

    def notes(s, limit=40):
        out = []
        t = s.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        if len(out) > limit:
            out = out[:limit // 2] + ['...'] + out[-limit // 2:]
        return out


def lit(s):
    return ('str', (('lit', s),)) if s else ('str', ())


def atoms_norm(atoms):
    out = []
    for a in atoms:
        if a[0] == 'ch' and isinstance(a[1], int):
            a = ('lit', chr(a[1]))
        if a[0] == 'lit':
            if not a[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + a[1])
                continue
        out.append(a)
    return tuple(out)


def cat(*vs):
    r = ()
    for v in vs:
        r += v[1] if v[0] == 'str' else v
    return ('str', atoms_norm(r))


def cell_char(name, i):
    return ('sym', 'c', name, i)


GEN = re.compile(r'::<')


def strip_generics(n):
    """drop ::<...> groups and <..> argument lists directly after identifiers: std::vec::Vec::<T, A>::push -> std::vec::Vec::push"""
    out = []
    i = 0
    while i < len(n):
        if n.startswith('::<', i):
            d = 0
            j = i + 2
            while j < len(n):
                if n[j] == '<':
                    d += 1
                elif n[j] == '>' and n[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            # '::<impl T>::' is part of a path
            if n.startswith('::<impl ', i):
                out.append('::' + n[i + 2:j + 1])
            i = j + 1
            continue
        out.append(n[i])
        i += 1
    return ''.join(out)


class Program:
    def __init__(self, dump):
        self.types = dump['types']
        self.fns = dump['fns']
        self.roots = dump['roots']
        self.by_ty = {}
        self._loops = {}
        self._live = {}
        for k, f in self.fns.items():
            f['key'] = k
            f['sdef'] = strip_generics(f['def'])
            if 'blocks' in f:
                self.by_ty.setdefault(f['ty'], []).append(k)
        self.tyname = {t['str']: i for i, t in enumerate(self.types)}

    def ty(self, i):
        return self.types[i]

    def local(self, f):
        return f['crate'] in ('json', 'vroots', 'vderive')

    def find_fn(self, pred):
        return [k for k, f in self.fns.items() if pred(f)]

    # --- control flow facts
    def succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b[1] for b in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self, key):
        r = self._loops.get(key)
        if r is None:
            f = self.fns[key]
            n = len(f['blocks'])
            color = [0] * n
            heads = set()
            stack = [(0, iter(self.succ(f['blocks'][0]['t'])))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color[s] == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succ(f['blocks'][s]['t']))))
                        break
                    if color[s] == 1:
                        heads.add(s)
                else:
                    color[b] = 2
                    stack.pop()
            r = self._loops[key] = frozenset(heads)
        return r

    def live(self, key):
        """per block: locals live on entry (address-taken locals: live from StorageLive on, cut by StorageDead)"""
        r = self._live.get(key)
        if r is not None:
            return r
        f = self.fns[key]
        nb = len(f['blocks'])
        taken = set()

        def place_uses(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i':
                    acc.add(e[1])

        def op_uses(o, acc):
            if o[0] in ('c', 'm'):
                place_uses(o[1], acc)

        def rv(r, acc):
            k = r[0]
            if k == 'use':
                op_uses(r[1], acc)
            elif k == 'ref':
                place_uses(r[2], acc)
                if '*' not in r[2][1]:
                    taken.add(r[2][0])
            elif k in ('discr', 'len'):
                place_uses(r[1], acc)
            elif k == 'repeat':
                op_uses(r[1], acc)
            elif k in ('bin', 'cbin'):
                op_uses(r[2], acc)
                op_uses(r[3], acc)
            elif k in ('un', 'cast'):
                op_uses(r[2], acc)
            elif k == 'agg':
                for o in r[2]:
                    op_uses(o, acc)
        use = []
        kill = []
        for b in f['blocks']:
            u, d = set(), set()
            for s in b['s']:
                acc = set()
                if s[0] == '=':
                    rv(s[2], acc)
                    if s[1][1]:
                        place_uses(s[1], acc)
                    u |= acc - d
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    if s[1][0] not in d:
                        u.add(s[1][0])
            t = b['t']
            acc = set()
            if t[0] == 'switch':
                op_uses(t[1], acc)
            elif t[0] == 'assert':
                op_uses(t[1], acc)
            elif t[0] == 'call':
                if t[1][0] == 'ptr':
                    op_uses(t[1][1], acc)
                for o in t[2]:
                    op_uses(o, acc)
                if t[3][1]:
                    place_uses(t[3], acc)
            elif t[0] == 'ret':
                acc.add(0)
            u |= acc - d
            if t[0] == 'call' and not t[3][1]:
                d.add(t[3][0])
            use.append(u)
            kill.append(d)
        live = [set() for _ in range(nb)]
        changed = True
        while changed:
            changed = False
            for i in range(nb - 1, -1, -1):
                out = set()
                for s in self.succ(f['blocks'][i]['t']):
                    out |= live[s]
                n = use[i] | (out - kill[i])
                if n != live[i]:
                    live[i] = n
                    changed = True
        r = self._live[key] = ([frozenset(x) for x in live], frozenset(taken))
        return r


class Engine:
    def __init__(self, prog, natives, budget=400000):
        self.p = prog
        self.nat = natives
        self.steps = 0
        self.budget = budget
        self.assumptions = {}
        self.fns_seen = set()
        self.calls_seen = 0
        self.hooks = {}          # 'call': f(E, st, fnkey, args) -> None | [(st, value)]
        self.monitor = None      # object with advance(E, st) -> [st]
        self.widen_delay = 1
        self.inner_delay = 0     # for loops inside an iteration of another loop
        self.max_consts = 6
        self.sibs = {}
        self.sib_max = 24
        self.keep_plain = 3
        self.loop_stats = {}
        self.cut = None          # a number: states that would be widened are dropped and counted
        self.deadline = None
        self.raw = False
        self.bits = {}
        self.kept = collections.Counter()
        self.rnd = random.Random(7)
        self.partial = None      # exits so far, kept when the budget runs out
        self.str_summary = {}
        self.safe = False
        self.prune = None        # f(E, st) -> True to leave a state to another partition
        self.rounds = 0

    # ---------------------------------------------------------------- opaque values
    def opaque(self, ty, term):
        t = self.p.types[ty]
        k = t['k']
        if k in ('int', 'uint', 'char', 'bool'):
            return ('sym',) + (('v',) + (term,))
        if k == 'float':
            return ('flt', ('v', term))
        if k == 'str':
            return ('str', (('S', term),))
        if k in ('slice',):
            return ('seq', (('t', term, t['elem'], 0, ('sym', 'len', term)),))
        if k == 'array':
            n = t['n']
            return ('seq', tuple(('e', self.opaque(t['elem'], ('at', term, i))) for i in range(n)))
        if k in ('ref', 'ptr'):
            e = self.p.types[t['elem']]
            if e['k'] == 'str':
                return ('str', (('S', term),))
            return ('ref', ('o', ('*', term), t['elem']), ())
        if k == 'tuple':
            return ('agg', ty, 0, tuple(self.opaque(e, ('fld', term, 0, i)) for i, e in enumerate(t['elems'])))
        if k == 'adt':
            d = t['def']
            if d in ('std::string::String',):
                return ('str', (('S', term),))
            if d in ('std::vec::Vec', 'std::collections::LinkedList', 'std::collections::VecDeque'):
                return ('seq', (('t', term, t['args'][0], 0, ('sym', 'len', term)),))
            if d in ('std::collections::HashMap', 'std::collections::BTreeMap'):
                return ('map', term, (), t['args'][0], t['args'][1])
            if d == 'std::boxed::Box':
                return ('box', ('o', ('*', term), t['args'][0]))
            if t['kind'] == 'Struct':
                return ('agg', ty, 0, tuple(self.opaque(e, ('fld', term, 0, i)) for i, (n, e) in enumerate(t['variants'][0]['fields'])))
            if t['kind'] == 'Enum':
                return ('opq', ty, term)
        return ('opq', ty, term)

    def type_dom(self, ty):
        t = self.p.types[ty]
        k = t['k']
        if k == 'bool':
            return ((0, 1),)
        if k == 'char':
            return T.CHAR
        if k == 'uint':
            return ((0, (1 << t['bits']) - 1),)
        if k == 'int':
            return ((-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1),)
        return None

    def ensure_dom(self, st, v, ty):
        if is_term(v) and v[0] not in ('cmp', 'not'):
            td = self.type_dom(ty)
            if td is not None and domain(st.dom, v) == T.TOP:
                st.dom = dict(st.dom)
                st.dom[v] = td
        return v

    def discr_of(self, st, v):
        """('opq') -> term atom for its variant index"""
        return ('sym', 'discr', v[2])

    def expand(self, st, v, var):
        ty, term = v[1], v[2]
        fs = self.p.types[ty]['variants'][var]['fields']
        return ('agg', ty, var, tuple(self.fresh_opaque(st, e, ('fld', term, var, i)) for i, (n, e) in enumerate(fs)))

    def fresh_opaque(self, st, ty, term):
        v = self.opaque(ty, term)
        self.init_dom(st, v, ty)
        return v

    def init_dom(self, st, v, ty):
        if is_term(v):
            self.ensure_dom(st, v, ty)
        elif v[0] == 'agg':
            t = self.p.types[ty]
            els = t['elems'] if t['k'] == 'tuple' else [e for _, e in t['variants'][v[2]]['fields']]
            for f, e in zip(v[3], els):
                self.init_dom(st, f, e)
        elif v[0] == 'seq':
            for s in v[1]:
                if s[0] == 't' and is_term(s[4]) and s[4] not in st.dom:
                    st.dom = dict(st.dom)
                    st.dom[s[4]] = ((0, ISIZE_MAX),)

    # ---------------------------------------------------------------- memory
    def load_cell(self, st, cell):
        v = st.heap.get(cell)
        if v is None:
            if cell[0] == 'o':
                v = self.fresh_opaque(st, cell[2], cell[1])
                st.heap[cell] = v
            elif cell[0] == 'K':
                return cell[1]
            else:
                if isinstance(cell[0], int) and cell[0] < len(st.fr):   # assignments of values without content are optimised out
                    v = self.only_value(self.p.fns[st.fr[cell[0]][0]]['locals'][cell[1]])
                if v is None:
                    raise Undecided('read of uninitialised/dead cell %r' % (cell,))
        return v

    def uninhabited(self, ty, depth=8):
        t = self.p.types[ty]
        if t['k'] == 'never':
            return True
        if t['k'] == 'tuple':
            return depth > 0 and any(self.uninhabited(e, depth - 1) for e in t['elems'])
        if t['k'] == 'adt' and t['kind'] != 'Union':
            return depth > 0 and all(any(self.uninhabited(e, depth - 1) for _, e in v['fields']) for v in t['variants'])
        return False

    def only_value(self, ty, depth=8):
        """the value of a type that has only one, or None"""
        t = self.p.types[ty]
        if not depth:
            return None
        if t['k'] == 'tuple':
            fs, i = t['elems'], 0
        elif t['k'] == 'adt' and t['kind'] in ('Enum', 'Struct'):
            vs = [i for i, v in enumerate(t['variants']) if not any(self.uninhabited(e) for _, e in v['fields'])]
            if len(vs) != 1:
                return None
            i = vs[0]
            fs = [e for _, e in t['variants'][i]['fields']]
        else:
            return None
        r = tuple(self.only_value(e, depth - 1) for e in fs)
        return None if None in r else ('agg', ty, i, r)

    def read(self, st, cell, path):
        v = self.load_cell(st, cell)
        return self.sub(st, v, path, cell)

    def sub(self, st, v, path, cell=None):
        i = 0
        while i < len(path):
            e = path[i]
            i += 1
            if isinstance(e, int):
                if v[0] == 'agg':
                    v = v[3][e]
                elif v[0] == 'opq':
                    v = self.resolve_opq(st, v)
                    v = v[3][e]
                elif v[0] == 'clo':
                    v = v[2][e]
                elif v[0] == 'box':
                    continue
                else:
                    raise Undecided('field %s of %s' % (e, str(v)[:80]))
            elif e[0] == 'v':
                if v[0] == 'opq':
                    v = self.expand(st, v, e[1])
            elif e[0] == 'idx':
                v = self.seq_at(st, v, e[1])
            elif e[0] == 'key':
                v = self.map_entry(st, v, e[1])
                if v is None:
                    raise Undecided('entry vanished')
            elif e[0] == 'slice':
                v = self.seq_sub(st, v, e[1], e[2])
            else:
                raise Undecided('path element %r' % (e,))
        return v

    def resolve_opq(self, st, v):
        d = domain(st.dom, self.discr_of(st, v))
        t = self.p.types[v[1]]
        if t.get('kind') == 'Struct':
            return self.expand(st, v, 0)
        if d and d[0][0] == d[-1][1]:
            return self.expand(st, v, d[0][0])
        raise Undecided('variant unknown')

    def write(self, st, cell, path, val):
        if not path:
            st.heap[cell] = val
            return
        v = self.load_cell(st, cell)
        st.heap[cell] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        rest = path[1:]
        if isinstance(e, int):
            if v[0] == 'opq':
                v = self.resolve_opq(st, v)
            if v[0] == 'agg':
                fs = list(v[3])
                while len(fs) <= e:
                    fs.append(None)
                fs[e] = self.upd(st, fs[e], rest, val)
                return ('agg', v[1], v[2], tuple(fs))
            if v[0] == 'clo':
                fs = list(v[2])
                fs[e] = self.upd(st, fs[e], rest, val)
                return ('clo', v[1], tuple(fs))
            raise Undecided('write field of %s' % (str(v)[:80],))
        if e[0] == 'v':
            if v[0] == 'opq':
                v = self.expand(st, v, e[1])
            return self.upd(st, v, rest, val)
        if e[0] == 'idx':
            k, segs = self.seq_locate1(st, v, e[1])
            segs = list(segs)
            segs[k] = ('e', self.upd(st, segs[k][1], rest, val))
            return ('seq', tuple(segs))
        if e[0] == 'key':
            old = self.map_entry(st, v, e[1])
            new = self.upd(st, old, rest, val)
            return self.map_put(v, e[1], new)
        raise Undecided('write path %r' % (e,))

    # ---------------------------------------------------------------- sequences
    def seg_len(self, s):
        if s[0] == 'e':
            return 1
        if s[0] == 't':
            return T.sub(s[4], s[3])
        if s[0] == 'rep':
            return s[2]
        raise Undecided('segment')

    def seq_len(self, v):
        n = 0
        for s in v[1]:
            n = T.add(n, self.seg_len(s))
        return n

    def seq_norm(self, segs):
        out = []
        for s in segs:
            n = self.seg_len(s)
            if n == 0:
                continue
            if s[0] == 'rep' and n == 1:
                s = ('e', s[1])
            if out and s[0] == 't' and out[-1][0] == 't' and out[-1][1] == s[1] and out[-1][4] == s[3]:
                out[-1] = ('t', s[1], s[2], out[-1][3], s[4])
                continue
            if out and s[0] == 'rep' and out[-1][0] == 'rep' and out[-1][1] == s[1]:
                out[-1] = ('rep', s[1], T.add(out[-1][2], s[2]))
                continue
            out.append(s)
        return tuple(out)

    def seq_locate(self, st, v, idx):
        """fork until the segment holding idx (known < len) is known: [(st, k, off)]"""
        out = []
        base = 0
        cur = st
        segs = v[1]
        for k, s in enumerate(segs):
            n = self.seg_len(s)
            end = T.add(base, n)
            c = T.cmp('Lt', idx, end)
            for s2, b in self.branch(cur, c):
                if b:
                    out.append((s2, k, T.sub(idx, base)))
                else:
                    cur2 = s2
                    break
            else:
                return out
            cur = cur2
            base = end
        return out

    def seq_locate1(self, st, v, idx):
        """split so that idx is a single 'e' segment: (k, segs); must be decided by the facts"""
        base = 0
        for k, s in enumerate(v[1]):
            n = self.seg_len(s)
            end = T.add(base, n)
            b = decide(st.dom, T.cmp('Lt', idx, end))
            if b is None:
                raise Undecided('position of an element in a sequence is not determined')
            if b:
                off = T.sub(idx, base)
                if s[0] == 'e':
                    return k, v[1]
                pre, val, post = self.seg_split(st, s, off)
                segs = self.seq_norm(v[1][:k] + (pre,))
                return len(segs), segs + (('e', val),) + self.seq_norm((post,) + v[1][k + 1:])
            base = end
        raise Undecided('element beyond the end')

    def seg_split(self, st, s, off):
        if s[0] == 't':
            i = T.add(s[3], off)
            return ('t', s[1], s[2], s[3], i), self.elem(st, s, off), ('t', s[1], s[2], T.add(i, 1), s[4])
        if s[0] == 'rep':
            return ('rep', s[1], off), s[1], ('rep', s[1], T.sub(T.sub(s[2], off), 1))
        raise Undecided('split')

    def elem(self, st, s, off):
        i = T.add(s[3], off)
        return self.fresh_opaque(st, s[2], ('at', s[1], i))

    def seq_at(self, st, v, idx):
        if v[0] != 'seq':
            raise Undecided('index into %s' % (str(v)[:60],))
        base = 0
        if not isinstance(idx, int) and v[1] and all(s[0] == 'e' and isinstance(s[1], int) for s in v[1]):
            d = domain(st.dom, idx)
            if d and T.isubset(d, ((0, len(v[1]) - 1),)):
                return ('sel', tuple(s[1] for s in v[1]), idx)
        for s in v[1]:
            end = T.add(base, self.seg_len(s))
            b = decide(st.dom, T.cmp('Lt', idx, end))
            if b is None:
                raise Undecided('element position undetermined')
            if b:
                if s[0] == 'e':
                    return s[1]
                if s[0] == 'rep':
                    return s[1]
                return self.elem(st, s, T.sub(idx, base))
            base = end
        raise Undecided('index beyond the end')

    def seq_split_at(self, st, v, idx):
        """(left segs, right segs), position decided by facts (forks not allowed)"""
        base = 0
        for k, s in enumerate(v[1]):
            if idx == base:
                return v[1][:k], v[1][k:]
            end = T.add(base, self.seg_len(s))
            b = decide(st.dom, T.cmp('Lt', idx, end))
            if b is None:
                if idx == end:
                    b = False
                else:
                    raise Undecided('split point undetermined')
            if b:
                off = T.sub(idx, base)
                if s[0] == 'e':
                    return v[1][:k], v[1][k:]
                if s[0] == 't':
                    i = T.add(s[3], off)
                    return v[1][:k] + (('t', s[1], s[2], s[3], i),), (('t', s[1], s[2], i, s[4]),) + v[1][k + 1:]
                if s[0] == 'rep':
                    return v[1][:k] + (('rep', s[1], off),), (('rep', s[1], T.sub(s[2], off)),) + v[1][k + 1:]
            base = end
        return v[1], ()

    def seq_sub(self, st, v, lo, hi):
        l, r = self.seq_split_at(st, v, lo)
        m, _ = self.seq_split_at(st, ('seq', r), T.sub(hi, lo))
        return ('seq', self.seq_norm(m))

    # ---------------------------------------------------------------- maps
    def map_put(self, m, key, val):
        ups = tuple(u for u in m[2] if u[0] != key)
        ups = tuple(sorted(ups + ((key, 1, val),), key=lambda u: T.akey(u[0])))
        return ('map', m[1], ups, m[3], m[4])

    def map_del(self, m, key):
        ups = tuple(u for u in m[2] if u[0] != key)
        if m[1] is not None:
            ups = tuple(sorted(ups + ((key, 0, None),), key=lambda u: T.akey(u[0])))
        return ('map', m[1], ups, m[3], m[4])

    def map_entry(self, st, m, key):
        """value at key (structurally known key); None if absent/unknown"""
        for k, p, v in m[2]:
            if k == key:
                return v if p else None
        if m[1] is None:
            return None
        has = ('sym', 'has', m[1], key)
        if decide(st.dom, has) is True and has in st.dom:
            return self.fresh_opaque(st, m[4], ('val', m[1], key))
        return None

    def map_lookup(self, st, m, key):
        """[(st, present)] : afterwards map_entry(st, m, key') works, key' returned: [(st, key' or None)]"""
        outs = []
        cur = [st]
        for k, p, v in m[2]:
            nxt = []
            for s in cur:
                for s2, eq in self.str_eq(s, ('str', k), ('str', key)):
                    if eq:
                        outs.append((s2, k if p else None))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if m[1] is None:
                outs.append((s, None))
                continue
            has = ('sym', 'has', m[1], key)
            if has not in s.dom:
                s.dom = dict(s.dom)
                s.dom[has] = ((0, 1),)
            for s2, b in self.branch(s, has):
                outs.append((s2, key if b else None))
        return outs

    # ---------------------------------------------------------------- branching
    def branch(self, st, b):
        """[(st, bool)]"""
        d = decide(st.dom, b)
        if d is not None:
            return [(st, d)]
        out = []
        for val in (True, False):
            nd = assume(st.dom, b, val)
            if nd is not None:
                s = st.copy()
                s.dom = nd
                out.append((s, val))
        return out

    def split(self, st, t, sets):
        """fork on t in each of the sets (a partition): [(st, index)]"""
        out = []
        for i, x in enumerate(sets):
            nd = restrict(st.dom, t, x)
            if nd is not None:
                s = st.copy()
                s.dom = nd
                out.append((s, i))
        return out

    # ---------------------------------------------------------------- streams
    def stream(self, st, name):
        return st.streams.get(name, (0, 0, 0))

    def peek_stream(self, st, name, pos):
        """[(st, True/False)] whether position pos exists"""
        known, ended, sh = self.stream(st, name)
        if pos < known:
            return [(st, True)]
        if pos > known:
            raise Undecided('stream gap')
        if ended:
            return [(st, False)]
        a = st.copy()
        a.streams[name] = (known + 1, 0, sh)
        c = cell_char(name, pos)
        a.dom = dict(a.dom)
        a.dom[c] = T.CHAR
        b = st.copy()
        b.streams[name] = (known, 1, sh)
        out = [(a, True), (b, False)]
        n = name
        while isinstance(n, tuple) and n and n[0] == 'trim':
            keep = []
            for s, more in out:
                k = None
                if more and n[3][0] and pos == 0 and not sh:
                    k = cell_char(name, 0)
                elif not more and n[3][1] and pos > 0 and cell_char(name, pos - 1) in s.dom:
                    k = cell_char(name, pos - 1)
                if k is not None:
                    d = restrict(s.dom, k, T.inot(n[2]))
                    if d is None:
                        continue
                    s.dom = d
                keep.append((s, more))
            out = keep
            n = n[1]
        return out

    def uncons(self, st, atoms):
        """first char of a string: [(st, None | (charterm, rest atoms))]"""
        out = []
        work = [(st, atoms)]
        while work:
            s, at = work.pop()
            if not at:
                out.append((s, None))
                continue
            a = at[0]
            if a[0] == 'lit':
                rest = ((('lit', a[1][1:]),) if len(a[1]) > 1 else ()) + at[1:]
                out.append((s, (ord(a[1][0]), rest)))
            elif a[0] == 'ch':
                out.append((s, (a[1], at[1:])))
            elif a[0] in ('S', 'in'):
                name, pos, hi = (a[1], 0, 'E') if a[0] == 'S' else a[1:]
                if a[0] == 'S' and self.stream(s, name)[2]:
                    raise Undecided('restart of a partly forgotten string')
                if pos == 'P':
                    raise Undecided('restart of a partly forgotten string')
                if hi != 'E':
                    if pos >= hi:
                        work.append((s, at[1:]))
                    else:
                        out.append((s, (cell_char(name, pos), (('in', name, pos + 1, hi),) + at[1:])))
                    continue
                for s2, ex in self.peek_stream(s, name, pos):
                    if ex:
                        out.append((s2, (cell_char(name, pos), (('in', name, pos + 1, 'E'),) + at[1:])))
                    else:
                        work.append((s2, at[1:]))
            else:
                raise Undecided('characters of %s' % (a[0],))
        return out

    def flat(self, st, atoms):
        """replace fully known opaque strings by their characters"""
        out = []
        for a in atoms:
            if a[0] == 'S':
                k, e, sh = self.stream(st, a[1])
                if e and not sh:
                    out += [('ch', cell_char(a[1], i)) for i in range(k)]
                    continue
            if a[0] == 'in' and isinstance(a[2], int):
                k, e, sh = self.stream(st, a[1])
                hi = a[3]
                if hi == 'E' and e:
                    hi = k
                if hi != 'E':
                    out += [('ch', cell_char(a[1], i)) for i in range(a[2], hi)]
                    continue
            if a[0] == 'ch' and not isinstance(a[1], int):
                d = domain(st.dom, a[1])
                if d and d[0][0] == d[-1][1]:
                    a = ('lit', chr(d[0][0]))
            out.append(a)
        return atoms_norm(out)

    def str_eq(self, st, x, y):
        """[(st, bool)]"""
        a = self.flat(st, x[1])
        b = self.flat(st, y[1])
        if a == b:
            return [(st, True)]
        # strip equal prefix/suffix atoms
        while a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if not a and not b:
            return [(st, True)]
        simple = lambda z: all(q[0] in ('lit', 'ch') for q in z)
        big = lambda z: any(q[0] in ('lit', 'ch') for q in z)
        if (not a and big(b)) or (not b and big(a)):
            return [(st, False)]
        la = all(q[0] == 'lit' for q in a)
        lb = all(q[0] == 'lit' for q in b)
        if la and lb:
            return [(st, False)]
        stre = lambda z: all(q[0] in ('lit', 'ch', 'S', 'in') for q in z)
        walk = stre(a) and stre(b) and (la or lb or simple(a) or simple(b))
        if walk and any(q[0] == 'S' and self.stream(st, q[1])[2] for q in a + b):
            walk = False
        if walk:
            out = []
            work = [(st, a, b)]
            while work:
                s, p, q = work.pop()
                for s1, u in self.uncons(s, p):
                    for s2, w in self.uncons(s1, q):
                        if u is None and w is None:
                            out.append((s2, True))
                        elif u is None or w is None:
                            out.append((s2, False))
                        else:
                            for s3, e in self.branch(s2, T.cmp('Eq', u[0], w[0])):
                                if e:
                                    work.append((s3, u[1], w[1]))
                                else:
                                    out.append((s3, False))
            return out
        k = ('sym', 'streq') + tuple(sorted((a, b), key=T.akey))
        if k not in st.dom:
            st = st.copy()
            st.dom[k] = ((0, 1),)
            st.dom = dict(st.dom)
        return self.branch(st, k)

    def str_nonempty(self, st, atoms):
        """True / False / None"""
        res = False
        for a in atoms:
            if a[0] in ('lit', 'ch'):
                return True
            if a[0] in ('S', 'in'):
                k, e, sh = self.stream(st, a[1])
                lo = 0 if a[0] == 'S' else a[2]
                if a[0] == 'S' and (sh or k > 0):
                    return True
                if a[0] == 'in' and isinstance(lo, int) and k > lo:
                    return True
                if not e:
                    res = None
            elif a[0] in ('esc', 'disp'):
                return True
            else:
                res = None
        return res

    # ---------------------------------------------------------------- places and operands
    def place(self, st, f, pl):
        """(cell, path, type)"""
        d = len(st.fr) - 1
        cell = (d, pl[0])
        path = ()
        ty = f['locals'][pl[0]]
        for e in pl[1]:
            if e == '*':
                v = self.read(st, cell, path)
                tt = self.p.types[ty]
                if tt['k'] in ('ref', 'ptr'):
                    ty = tt['elem']
                elif tt['k'] == 'adt' and tt['def'] == 'std::boxed::Box':
                    ty = tt['args'][0]
                if v[0] == 'ref':
                    cell, path = v[1], v[2]
                elif v[0] == 'box':
                    cell, path = v[1], ()
                elif v[0] in ('str', 'seqref'):
                    pass
                else:
                    raise Undecided('deref of %s' % (str(v)[:60],))
            elif e[0] == 'f':
                path = path + (e[1],)
                ty = e[2]
            elif e[0] == 'v':
                path = path + (('v', e[1]),)
            elif e[0] == 'i':
                i = self.read(st, (d, e[1]), ())
                path = path + (('idx', i),)
                ty = self.p.types[ty].get('elem', ty)
            elif e[0] == 'ci':
                if e[3]:
                    n = self.seq_len(self.read(st, cell, path))
                    path = path + (('idx', T.sub(n, e[1])),)
                else:
                    path = path + (('idx', e[1]),)
                ty = self.p.types[ty].get('elem', ty)
            elif e[0] == 'sub':
                n = self.seq_len(self.read(st, cell, path))
                path = path + (('slice', e[1], T.sub(n, e[2]) if e[3] else e[2]),)
            else:
                raise Undecided('projection %r' % (e,))
        return cell, path, ty

    def const(self, st, ty, v):
        if v is None:
            raise Undecided('unknown constant of type ' + self.p.types[ty]['str'])
        return self.cval(v, ty)

    def cval(self, v, ty=None):
        k = v[0]
        t = self.p.types[ty] if ty is not None else None
        if k == 'n':
            n = int(v[1])
            if t is not None and t['k'] == 'float':
                return ('flt', ('bits', t['bits'], n))
            return n
        if k == 'zst':
            tt = self.p.types[v[1]]
            if tt['k'] == 'fndef':
                return ('fn', tt.get('inst'), v[1])
            if tt['k'] == 'closure':
                return ('clo', v[1], ())
            if tt['k'] == 'array':
                return ('seq', ())
            if tt['k'] == 'tuple':
                return ('agg', v[1], 0, tuple(self.cval(['zst', e]) for e in tt['elems']))
            if tt['k'] == 'adt':
                return self.opaque(v[1], ('zst',)) if tt['kind'] != 'Enum' else ('opq', v[1], ('zst',))
            return ('agg', v[1], 0, ())
        if k == 'agg':
            tys = [None] * len(v[2])
            if t is not None:
                if t['k'] == 'tuple':
                    tys = t['elems']
                elif t['k'] == 'adt':
                    tys = [e for _, e in t['variants'][v[1]]['fields']]
                    if t['def'] == 'std::string::String':
                        return lit('')
                    if t['def'] in ('std::vec::Vec', 'std::collections::LinkedList'):
                        return ('seq', ())
            return ('agg', ty, v[1], tuple(None if x is None else self.cval(x, y) for x, y in zip(v[2], tys)))
        if k == 'arr':
            et = t.get('elem') if t is not None else None
            return ('seq', tuple(('e', self.cval(x, et)) for x in v[1]))
        if k == 'str':
            return lit(v[1])
        if k == 'ref':
            inner = v[1]
            if inner is None:
                raise Undecided('constant reference')
            et = t.get('elem') if t is not None else None
            x = self.cval(inner, et)
            if inner[0] == 'str':
                return x
            return ('ref', ('K', x), ())
        raise Undecided('constant %r' % (v,))

    def operand(self, st, f, o):
        if o[0] == 'k':
            return self.const(st, o[1], o[2])
        if o[0] in ('c', 'm'):
            cell, path, ty = self.place(st, f, o[1])
            v = self.read(st, cell, path)
            if is_term(v):
                self.ensure_dom(st, v, ty)
            return v
        if o[0] == 'rt':        # runtime checks of the standard library: a build without them
            return 0
        raise Undecided('operand %r' % (o,))

    def op_type(self, f, o):
        if o[0] == 'k':
            return o[1]
        ty = f['locals'][o[1][0]]
        for e in o[1][1]:
            if e == '*':
                tt = self.p.types[ty]
                ty = tt['elem'] if 'elem' in tt else tt['args'][0]
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.p.types[ty].get('elem', ty)
        return ty

    # ---------------------------------------------------------------- rvalues: [(st, value)]
    def rvalue(self, st, f, r, dty):
        k = r[0]
        if k == 'use':
            return [(st, self.operand(st, f, r[1]))]
        if k == 'ref':
            cell, path, ty = self.place(st, f, r[2])
            tk = self.p.types[ty]
            if tk['k'] == 'str':
                return [(st, self.read(st, cell, path))]
            return [(st, ('ref', cell, path))]
        if k == 'discr':
            cell, path, ty = self.place(st, f, r[1])
            v = self.read(st, cell, path)
            if v[0] == 'agg':
                return [(st, self.variant_discr(v[1] if v[1] is not None else ty, v[2]))]
            if v[0] == 'opq':
                a = self.discr_of(st, v)
                n = len(self.p.types[v[1]]['variants'])
                if a not in st.dom:
                    st.dom = dict(st.dom)
                    st.dom[a] = ((0, n - 1),)
                return [(st, ('dv', a, v[1]))]
            raise Undecided('discriminant of %s' % (str(v)[:60],))
        if k == 'agg':
            vs = tuple(self.operand(st, f, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'tuple':
                return [(st, ('agg', dty, 0, vs))]
            if kk[0] == 'adt':
                t = self.p.types[kk[1]]
                return [(st, ('agg', kk[1], kk[2], vs))]
            if kk[0] == 'closure':
                return [(st, ('clo', kk[1], vs))]
            if kk[0] == 'array':
                return [(st, ('seq', tuple(('e', v) for v in vs)))]
            raise Undecided('aggregate %r' % (kk,))
        if k in ('bin', 'cbin'):
            a = self.operand(st, f, r[2])
            b = self.operand(st, f, r[3])
            ta = self.op_type(f, r[2])
            return self.binop(st, r[1], a, b, ta, k == 'cbin' or r[1].endswith('WithOverflow'), dty)
        if k == 'un':
            a = self.operand(st, f, r[2])
            if r[1] == 'Not':
                ta = self.p.types[self.op_type(f, r[2])]
                if ta['k'] == 'bool':
                    return [(st, T.neg(a))]
                if isinstance(a, int) and ta['k'] == 'uint':
                    return [(st, a ^ ((1 << ta['bits']) - 1))]
                return [(st, ('op', 'BitNot', a))]
            if r[1] == 'Neg':
                if isinstance(a, tuple) and a[0] == 'flt':
                    return [(st, ('flt', ('neg', a[1])))]
                return [(st, T.scale(a, -1))]
            if r[1] == 'PtrMetadata':
                if a[0] == 'ref':
                    return [(st, self.seq_len(self.read(st, a[1], a[2])))]
                if a[0] == 'str':
                    return [(st, self.str_len(st, a[1]))]
            raise Undecided('unop %s' % r[1])
        if k == 'cast':
            return self.cast(st, f, r)
        if k == 'len':
            cell, path, ty = self.place(st, f, r[1])
            return [(st, self.seq_len(self.read(st, cell, path)))]
        if k == 'repeat':
            v = self.operand(st, f, r[1])
            if r[2] is None:
                raise Undecided('repeat')
            return [(st, ('seq', (('rep', v, r[2]),) if r[2] > 8 else tuple(('e', v) for _ in range(r[2]))))]
        raise Undecided('rvalue %r' % (r[:2],))

    def variant_discr(self, ty, var):
        vs = self.p.types[ty].get('variants')
        if not vs:
            return var
        d = int(vs[var]['discr'])
        return d

    def str_len(self, st, atoms):
        n = 0
        for a in self.flat(st, atoms):
            if a[0] == 'lit':
                n = T.add(n, len(a[1].encode('utf-8', 'surrogatepass')))
            elif a[0] == 'ch':
                d = domain(st.dom, a[1])
                if d and d[-1][1] < 0x80:
                    n = T.add(n, 1)
                else:
                    x = ('op', 'utf8len', a[1])
                    self.setdom(st, x, ((1, 4),))
                    n = T.add(n, x)
            else:
                x = ('sym', 'slen', a)
                self.setdom(st, x, ((0, ISIZE_MAX),))
                n = T.add(n, x)
        return n

    def setdom(self, st, x, d):
        if x not in st.dom:
            st.dom = dict(st.dom)
            st.dom[x] = d

    def undv(self, st, v):
        """discriminant term -> [(st, int)] by forking over the possible variants"""
        a, ty = v[1], v[2]
        vs = self.p.types[ty]['variants']
        out = []
        for s, i in self.split(st, a, [((j, j),) for j in range(len(vs))]):
            out.append((s, int(vs[i]['discr'])))
        return out

    def single(self, st, x):
        if isinstance(x, int) or not is_term(x):
            return x
        d = T.domain(st.dom, x)
        return d[0][0] if len(d) == 1 and d[0][0] == d[0][1] else x

    def binop(self, st, op, a, b, ty, checked, dty):
        t = self.p.types[ty]
        for x, side in ((a, 0), (b, 1)):
            if isinstance(x, tuple) and x and x[0] == 'dv':
                out = []
                for s, n in self.undv(st, x):
                    out += self.binop(s, op, n if side == 0 else a, n if side == 1 else b, ty, checked, dty)
                return out
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isinstance(a, tuple) and a and a[0] == 'flt':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.fcmp(st, op, a, b)
            return [(st, ('flt', (op, a[1], b[1])))]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if not (is_scalar(a) and is_scalar(b)):
                if op in ('Eq', 'Ne') and a == b and a[0] in ('agg',):
                    return [(st, int(op == 'Eq'))]
                raise Undecided('comparison of %s' % (str(a)[:60],))
            return [(st, T.cmp(op, a, b))]
        if op == 'Cmp':
            out = []
            for s, lt in self.branch(st, T.cmp('Lt', a, b)):
                if lt:
                    out.append((s, ('agg', dty, 0, ())))
                else:
                    for s2, eq in self.branch(s, T.cmp('Eq', a, b)):
                        out.append((s2, ('agg', dty, 1 if eq else 2, ())))
            return out
        if not (is_scalar(a) and is_scalar(b)):
            raise Undecided('arithmetic on %s' % (str(a)[:60],))
        if t['k'] == 'bool':
            r = self.boolop(st, op, a, b)
            return r
        td = self.type_dom(ty)
        v = None
        if self.cut is not None and not self.raw and op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Mul', 'Div', 'Rem'):
            one = [self.single(st, x) for x in (a, b)]
            if one != [a, b]:
                return self.binop(st, op, one[0], one[1], ty, checked, dty)
            self.raw = True
            s0 = st.copy()
            try:
                r = self.binop(st, op, a, b, ty, checked, dty)
            finally:
                self.raw = False
            if not any(mentions_op(x[1]) for x in r):
                return r
            # bounded pass: look at a few values of what the operation is computed from
            out = []
            for env in T.witnesses(s0.dom, [x for x in (a, b)], None, 600, 5):
                s2 = s0.copy()
                d = s2.dom
                for k, x in env.items():
                    d = d and restrict(d, k, ((x, x),))
                d = d and T.feasible(d)
                if d is None:
                    continue
                s2.dom = d
                out += self.binop(s2, op, T.ev(a, env), T.ev(b, env), ty, checked, dty)
            if out or all([T.leaves(x, set()) for x in (a, b)]):
                return out
            return r
        if op in ('Add', 'Sub'):
            v = T.add(a, b) if op == 'Add' else T.sub(a, b)
        elif op == 'Mul':
            if isinstance(a, int):
                v = T.scale(b, a)
            elif isinstance(b, int):
                v = T.scale(a, b)
        elif op == 'BitAnd':
            v = T.bitand(st.dom, a, b)
            if v is None:
                v = ('op', 'And', a, b)
                m = min((x for x in (a, b) if isinstance(x, int)), default=td[-1][1])
                self.setdom(st, v, ((0, m),) if m >= 0 else td)
        elif op == 'BitOr':
            v = T.bitor(st.dom, a, b)
            if v is None:
                da, db = domain(st.dom, a), domain(st.dom, b)
                if da and db and da[0][0] >= 0 and db[0][0] >= 0:
                    v = ('op', 'BitOr', a, b)
                    self.setdom(st, v, ((max(da[0][0], db[0][0]), (1 << max(da[-1][1].bit_length(), db[-1][1].bit_length())) - 1),))
        elif op in ('Shl', 'Shr') and isinstance(b, int):
            bits = t['bits']
            if 0 <= b < bits:
                if op == 'Shl':
                    v = T.scale(a, 1 << b)
                    d = domain(st.dom, v)
                    if not T.isubset(d, td):
                        if isinstance(v, int):
                            v &= (1 << bits) - 1
                        else:
                            # bits shifted out
                            v = ('op', 'trunc', bits, v)
                            self.setdom(st, v, td)
                elif td[0][0] == 0 or domain(st.dom, a)[0][0] >= 0:
                    v = T.shr(st.dom, a, b)
        elif op in ('Div', 'Rem') and isinstance(a, int) and isinstance(b, int) and b:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            v = q if op == 'Div' else a - b * q
        elif op == 'BitXor':
            v = T.bitxor(st.dom, a, b)
        elif op == 'Div' and isinstance(b, int) and b > 0 and b & (b - 1) == 0 and domain(st.dom, a)[0][0] >= 0:
            v = T.shr(st.dom, a, b.bit_length() - 1)
        elif op == 'Rem' and isinstance(b, int) and b > 0 and b & (b - 1) == 0 and domain(st.dom, a)[0][0] >= 0:
            v = T.bitand(st.dom, a, b - 1)
        if v is None:
            v = ('op', op, a, b, t['str'])
            d = td
            if op == 'Rem' and isinstance(b, int) and b > 0 and domain(st.dom, a)[0][0] >= 0:
                d = ((0, b - 1),)
            if op == 'Div' and isinstance(b, int) and b > 0 and domain(st.dom, a)[0][0] >= 0:
                h = domain(st.dom, a)
                d = ((h[0][0] // b, h[-1][1] // b if h[-1][1] < T.INF else T.INF),)
            self.setdom(st, v, d)
        if op in ('Add', 'Sub', 'Mul'):
            d = domain(st.dom, v)
            fits = T.isubset(d, td)
            if checked:
                if fits:
                    return [(st, ('agg', dty, 0, (v, 0)))]
                inside = T.iand(d, td)
                if not inside:
                    return [(st, ('agg', dty, 0, (0, 1)))]
                if t['bits'] >= 32 and self.counter_like(v):
                    nd = restrict(st.dom, v, td)
                    if nd is not None:
                        self.assumptions['counters/lengths bounded by memory do not overflow %s' % t['str']] = 1
                        st.dom = nd
                        return [(st, ('agg', dty, 0, (v, 0)))]
                out = []
                nd = restrict(st.dom, v, td)
                s2 = st.copy()
                s2.dom = nd
                out.append((s2, ('agg', dty, 0, (v, 0))))
                nd = restrict(st.dom, v, T.inot(td))
                if nd is not None:
                    s3 = st.copy()
                    s3.dom = nd
                    out.append((s3, ('agg', dty, 0, (0, 1))))
                return out
            if not fits:
                if isinstance(v, int):
                    v = self.wrap(v, t)
                else:
                    v = ('op', 'wrap', t['str'], v)
                    self.setdom(st, v, td)
        return [(st, v)]

    def wrap(self, v, t):
        v &= (1 << t['bits']) - 1
        if t['k'] == 'int' and v >> (t['bits'] - 1):
            v -= 1 << t['bits']
        return v

    def counter_like(self, v):
        c, p = T.parts(v)
        if abs(c) > (1 << 31):
            return False
        for a, k in p:
            if not (a[0] == 'sym' and a[1] in ('wi', 'len', 'slen', 'mlen') or a[0] == 'op' and a[1] == 'utf8len'):
                return False
            if abs(k) > 16:
                return False
        return True

    def boolop(self, st, op, a, b):
        out = []
        for s, x in self.branch(st, a):
            if op == 'BitAnd' and not x:
                out.append((s, 0))
            elif op == 'BitOr' and x:
                out.append((s, 1))
            elif op in ('BitAnd', 'BitOr'):
                out.append((s, b))
            elif op == 'BitXor':
                out.append((s, T.neg(b) if x else b))
            else:
                raise Undecided('bool ' + op)
        return out

    def fcmp(self, st, op, a, b):
        k = ('sym', 'fcmp', op, a[1], b[1])
        x, y = a[1], b[1]
        # x != x  <=> NaN ;  infinities decided via class facts
        cls = None
        if x == y and op in ('Eq', 'Ne'):
            c = self.fclass(st, x)
            r = T.cmp('Eq', c, 1) if op == 'Ne' else T.neg(T.cmp('Eq', c, 1))
            return [(st, r)]
        if x[0] == 'bits' and y[0] == 'bits' and x[1] == 64:
            import struct
            fx, fy = (struct.unpack('<d', struct.pack('<Q', z[2]))[0] for z in (x, y))
            return [(st, int({'Eq': fx == fy, 'Ne': fx != fy, 'Lt': fx < fy, 'Le': fx <= fy, 'Gt': fx > fy, 'Ge': fx >= fy}[op]))]
        INFB = {0x7FF0000000000000: 2, 0xFFF0000000000000: 3}
        neg_of = lambda z: z[2] if z[0] == 'bits' else None
        if y[0] == 'bits' and y[1] == 64 and y[2] in INFB:
            want = INFB[y[2]]
            absx = x[0] == 'abs'
            c = self.fclass(st, x[1] if absx else x)
            if absx:
                if want == 2:
                    # |x| op inf
                    sets = {'Lt': ((0, 0),), 'Le': ((0, 0), (2, 3)), 'Eq': ((2, 3),), 'Ge': ((2, 3),), 'Gt': (), 'Ne': ((0, 1),)}
                    return self.member(st, c, sets[op])
            else:
                if want == 2:
                    sets = {'Eq': ((2, 2),), 'Ne': ((0, 1), (3, 3)), 'Lt': ((0, 0), (3, 3)), 'Le': ((0, 0), (2, 3)), 'Gt': (), 'Ge': ((2, 2),)}
                else:
                    sets = {'Eq': ((3, 3),), 'Ne': ((0, 2),), 'Gt': ((0, 0), (2, 2)), 'Ge': ((0, 0), (2, 3)), 'Lt': (), 'Le': ((3, 3),)}
                return self.member(st, c, T.inorm(sets[op]))
        self.setdom(st, k, ((0, 1),))
        return [(st, k)]

    def member(self, st, t, s):
        out = []
        s = T.inorm(s)
        for s2, i in self.split(st, t, [s, T.inot(s)] if s else [T.TOP]):
            out.append((s2, 1 if (i == 0 and s) else 0))
        return out

    def fclass(self, st, x):
        """0 finite, 1 nan, 2 +inf, 3 -inf"""
        c = ('sym', 'fclass', x)
        if c not in st.dom:
            d = ((0, 3),)
            if x[0] == 'bits' and x[1] == 64:
                e = (x[2] >> 52) & 0x7ff
                m = x[2] & ((1 << 52) - 1)
                n = 0 if e != 0x7ff else (1 if m else (3 if x[2] >> 63 else 2))
                d = ((n, n),)
            elif x[0] == 'i2f':
                d = ((0, 0),)
            elif x[0] == 'parsed':
                d = ((0, 0), (2, 3)) if not x[2] else ((0, 3),)
            self.setdom(st, c, T.inorm(d))
        return c

    def cast(self, st, f, r):
        kind = r[1]
        v = self.operand(st, f, r[2])
        src = self.op_type(f, r[2])
        dst = r[3]
        ts, td = self.p.types[src], self.p.types[dst]
        if isinstance(v, tuple) and v and v[0] == 'dv':
            return [(s, n) for s, n in self.undv(st, v)]
        if kind == 'IntToInt':
            d = self.type_dom(dst)
            if ts['k'] == 'bool' and is_term(v) and v[0] in ('cmp', 'not'):
                return [(s, int(b)) for s, b in self.branch(st, v)]
            if T.isubset(domain(st.dom, v), d):
                return [(st, v)]
            if isinstance(v, int):
                return [(st, self.wrap(v, td))]
            # u as u8 with value known modulo
            if d[0][0] == 0:
                dv = domain(st.dom, v)
                if dv[0][0] >= 0:
                    m = T.bitand(st.dom, v, d[-1][1])
                    if m is not None:
                        return [(st, m)]
            if self.counter_like(v) and td['bits'] >= 32:
                nd = restrict(st.dom, v, d)
                if nd is not None:
                    self.assumptions['counters/lengths bounded by memory fit %s' % td['str']] = 1
                    st.dom = nd
                    return [(st, v)]
            x = ('op', 'cast', td['str'], v)
            self.setdom(st, x, d)
            return [(st, x)]
        if kind == 'IntToFloat':
            return [(st, ('flt', ('i2f', ts['str'], v, td['bits'])))]
        if kind == 'FloatToInt':
            x = ('op', 'f2i', td['str'], v[1])
            self.setdom(st, x, self.type_dom(dst))
            return [(st, x)]
        if kind == 'FloatToFloat':
            if ts['bits'] == td['bits']:
                return [(st, v)]
            return [(st, ('flt', ('f2f', ts['bits'], td['bits'], v[1])))]
        if kind.startswith('PointerCoercion'):
            return [(st, v)]
        if kind in ('PtrToPtr', 'Transmute', 'Subtype', 'BoxDerefTransmute'):
            if v[0:1] == ('agg',) and len(v[3]) == 1 and td['k'] in ('ptr', 'ref'):
                x = v
                while isinstance(x, tuple) and x[0] == 'agg' and len(x[3]) >= 1:
                    x = x[3][0]
                return [(st, x)]
            if v[0:1] in (('ref',), ('box',), ('str',)) or is_scalar(v):
                if v[0:1] == ('box',):
                    return [(st, ('ref', v[1], ()))]
                if is_scalar(v) and td['k'] == 'char':
                    d = domain(st.dom, v)
                    if not T.isubset(d, T.CHAR):
                        nd = restrict(st.dom, v, T.CHAR)
                        if nd is None:
                            raise Undecided('transmute to char')
                        st.dom = nd
                    return [(st, v)]
                if is_scalar(v) and td['k'] == 'float':
                    return [(st, ('flt', ('bits', td['bits'], v)))]
                if is_scalar(v) and td['k'] == 'adt':
                    raise Undecided('transmute to adt')
                return [(st, v)]
            if v[0] == 'flt' and td['k'] in ('uint', 'int'):
                x = ('op', 'tobits', v[1])
                self.setdom(st, x, self.type_dom(dst))
                return [(st, x)]
            return [(st, v)]
        raise Undecided('cast %s' % kind)

    # ---------------------------------------------------------------- running
    def start(self, key, args):
        st = St()
        return self.push(st, key, args, None, None)

    def push(self, st, key, args, dest, ret):
        f = self.p.fns[key]
        if 'blocks' not in f:
            raise Undecided('no body: ' + f['name'])
        if len(st.fr) > 60:
            raise Undecided('call depth')
        d = len(st.fr)
        st.fr = st.fr + ((key, 0, dest, ret),)
        self.fns_seen.add(key)
        n = f['argc']
        if 'spread' in f and f['spread']:
            sp = f['spread']
            fixed = args[:sp - 1]
            rest = args[sp - 1:]
            for i, a in enumerate(fixed):
                st.heap[(d, i + 1)] = a
            if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == 'agg':
                st.heap[(d, sp)] = rest[0]
            else:
                st.heap[(d, sp)] = ('agg', f['locals'][sp], 0, tuple(rest))
        else:
            if len(args) != n and len(args) >= 1 and isinstance(args[-1], tuple) and args[-1][:1] == ('agg',) and len(args) - 1 + len(args[-1][3]) == n:
                args = list(args[:-1]) + list(args[-1][3])
            if len(args) != n:
                raise Undecided('arity of ' + f['name'])
            for i, a in enumerate(args):
                st.heap[(d, i + 1)] = a
        return st

    def call_sub(self, st, key, args):
        """run a callee to completion: [(st, value)] (panics propagate as (st, Panic))"""
        base = len(st.fr)
        s = self.push(st.copy(), key, args, None, None)
        return self.run(s, base)

    def call_value(self, st, fv, args):
        """call a closure / fn item value: [(st, value)]"""
        if fv[0] == 'fn':
            f = self.p.fns[fv[1]]
            h = self.hooks.get('rec')
            r = h(self, st, f, list(args)) if h else None
            h = self.hooks.get('call')
            if r is None and h:
                r = h(self, st, f, list(args))
            if r is None:
                r = self.try_native(st, f, f['def'], list(args))
            if r is not None:
                return r
            return self.call_sub(st, fv[1], args)
        if fv[0] == 'ref':
            inner = self.read(st, fv[1], fv[2])
            if inner[0] == 'clo':
                keys = [k for k in self.p.by_ty.get(inner[1], []) if 'shim' not in self.p.fns[k]['kind']]
                if len(keys) >= 1:
                    k = keys[0]
                    a0 = self.p.types[self.p.fns[k]['locals'][1]]['k']
                    if a0 == 'ref':
                        return self.call_sub(st, k, [fv] + list(args))
                    return self.call_sub(st, k, [inner] + list(args))
            return self.call_value(st, inner, args)
        if fv[0] == 'clo':
            keys = [k for k in self.p.by_ty.get(fv[1], []) if self.p.fns[k]['kind'] != 'shim']
            if not keys:
                raise Undecided('closure body')
            k = keys[0]
            a0 = self.p.types[self.p.fns[k]['locals'][1]]['k']
            if a0 == 'ref':
                st = st.copy()
                st.n += 1
                cell = ('b', st.n)
                st.heap[cell] = fv
                return self.call_sub(st, k, [('ref', cell, ())] + list(args))
            return self.call_sub(st, k, [fv] + list(args))
        raise Undecided('call of %s' % (str(fv)[:60],))

    def run(self, st, base=0):
        """explore all paths from st until the frame stack is down to base: [(st, value | Panic)]"""
        exits = []
        if self.cut is not None and self.partial is None:
            self.partial = exits
        seen = {}
        ways = getattr(self, 'ways', None)
        work = Fair() if self.cut is not None and not base else collections.deque()
        work.append(st)
        while work:
            s = work.pop()
            self.steps += 1
            if self.steps > self.budget or self.deadline and not self.steps & 255 and time.monotonic() > self.deadline:
                raise Budget('analysis budget exhausted')
            if ways is not None:
                ways.met = False
                s0 = s.copy()
            try:
                rs = self.block(s.copy() if self.safe else s, base, seen)
            except Budget:
                raise
            except Undecided as e:
                exits.append((s, Undec('%s at %s' % (e, self.user_where(s)))))
                continue
            except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, RecursionError) as e:
                if os.environ.get('SA_DEBUG'):
                    raise
                exits.append((s, Undec('internal: %s %s' % (type(e).__name__, e))))
                continue
            if ways is not None and not rs and not ways.met:
                ways.leave(s0)
            for r in rs:
                if isinstance(r, tuple):
                    exits.append(r)
                elif self.prune is None or not self.prune(self, r):
                    work.append(r)
        return exits

    def goto(self, st, bb, seen):
        """[st] after moving the top frame to bb, cutting at loop heads"""
        key, _, dest, ret = st.fr[-1]
        st.fr = st.fr[:-1] + ((key, bb, dest, ret),)
        if bb in self.p.loops(key):
            return self.loop_head(st, key, bb, seen)
        return [st]

    def where(self, st):
        key, bb, _, _ = st.fr[-1]
        f = self.p.fns[key]
        return '%s (%s)' % (f['blocks'][bb]['sp'], f['name'])

    def user_where(self, st):
        """innermost frame in the code under analysis"""
        for key, bb, _, _ in reversed(st.fr):
            f = self.p.fns[key]
            if f['crate'] == 'json' or f['crate'] == 'vderive':
                return '%s (%s)' % (f['blocks'][bb]['sp'], f['name'])
        return self.where(st)

    def block(self, st, base, seen):
        key, bb, dest, ret = st.fr[-1]
        f = self.p.fns[key]
        b = f['blocks'][bb]
        if self.cut is not None:
            st.cov |= 1 << self.bits.setdefault((key, bb), len(self.bits))
        d = len(st.fr) - 1
        states = [st]
        for s in b['s']:
            nxt = []
            for x in states:
                k = s[0]
                if k == '=':
                    pl = s[1]
                    dty = f['locals'][pl[0]] if not pl[1] else None
                    if dty is None:
                        dty = self.op_type(f, ['c', pl])
                    for y, v in self.rvalue(x, f, s[2], dty):
                        if pl[1]:
                            c, p, _ = self.place(y, f, pl)
                            self.write(y, c, p, v)
                        else:
                            y.heap[(d, pl[0])] = v
                        if s[2][0] == 'use' and s[2][1][0] == 'm' and not s[2][1][1][1]:
                            y.heap.pop((d, s[2][1][1][0]), None)
                            if not pl[1]:
                                y.heap[(d, pl[0])] = v
                        nxt.append(y)
                elif k == 'dead':
                    x.heap.pop((d, s[1]), None)
                    nxt.append(x)
                elif k == 'sd':
                    c, p, ty = self.place(x, f, s[1])
                    v = self.read(x, c, p)
                    self.write(x, c, p, ('agg', ty, s[2], v[3] if v[0] == 'agg' else ()))
                    nxt.append(x)
                elif k == 'intr':
                    if 'Assume' in s[1]:
                        nxt.append(x)
                    else:
                        raise Undecided('intrinsic statement ' + s[1])
                else:
                    nxt.append(x)
            states = nxt
        out = []
        for x in states:
            out += self.term(x, f, b, base, seen)
        return out

    def term(self, st, f, b, base, seen):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return self.goto(st, t[1], seen)
        if k == 'drop':
            return self.goto(st, t[2], seen)
        if k == 'ret':
            d = len(st.fr) - 1
            v = st.heap.get((d, 0), ('agg', f['locals'][0], 0, ()))
            key, bb, dest, ret = st.fr[-1]
            st.fr = st.fr[:-1]
            for c in [c for c in st.heap if isinstance(c[0], int) and c[0] >= d]:
                del st.heap[c]
            if len(st.fr) == base:
                return [(st, v)]
            h = self.hooks.get('ret')
            if h:
                h(self, st, key, v)
            c, p = dest
            self.write(st, c, p, v)
            return self.goto(st, ret, seen)
        if k == 'switch':
            v = self.operand(st, f, t[1])
            out = []
            if isinstance(v, tuple) and v and v[0] == 'dv':
                a, ty = v[1], v[2]
                vs = self.p.types[ty]['variants']
                rest = set(range(len(vs)))
                groups = {}
                for val, tgt in t[2]:
                    for i, x in enumerate(vs):
                        if int(x['discr']) == int(val):
                            groups.setdefault(tgt, set()).add(i)
                            rest.discard(i)
                if rest:
                    groups.setdefault(t[3], set()).update(rest)
                for tgt, idx in groups.items():
                    for i in sorted(idx):
                        nd = restrict(st.dom, a, ((i, i),))
                        if nd is not None:
                            s2 = st.copy()
                            s2.dom = nd
                            if self.p.local(f):
                                s2.note('%s: %s is %s' % (b['sp'], term_str(a[2]), vs[i]['name']))
                            out += self.goto(s2, tgt, seen)
                return out
            ts = self.p.types[t[4]] if t[4] is not None else {'k': ''}
            if ts['k'] == 'bool':
                tgt = {int(x): y for x, y in t[2]}
                for s2, bv in self.branch(st, v):
                    if s2 is not st and self.p.local(f):
                        s2.note('%s: %s is %s' % (b['sp'], term_str(v), bv))
                    out += self.goto(s2, tgt.get(int(bv), t[3]), seen)
                return out
            if isinstance(v, int):
                bits = ts.get('bits', 64)
                for val, tgt in t[2]:
                    if int(val) == v or (v < 0 and int(val) == v + (1 << bits)):
                        return self.goto(st, tgt, seen)
                return self.goto(st, t[3], seen)
            vals = [int(x) for x, _ in t[2]]
            sets = [((x, x),) for x in vals]
            sets.append(T.inot(T.inorm([(x, x) for x in vals])))
            tg = [y for _, y in t[2]] + [t[3]]
            for s2, i in self.split(st, v, sets):
                if self.p.local(f):
                    s2.note('%s: %s %s' % (b['sp'], term_str(v), ('== ' + repr_ch(vals[i], ts)) if i < len(vals) else 'is none of the listed values'))
                out += self.goto(s2, tg[i], seen)
            return out
        if k == 'assert':
            v = self.operand(st, f, t[1])
            out = []
            for s2, bv in self.branch(st, v):
                if bv == t[2]:
                    out += self.goto(s2, t[4], seen)
                else:
                    out.append((s2, Panic('%s at %s' % (t[3], self.user_where(s2)))))
            return out
        if k == 'unreachable':
            return []
        if k == 'call':
            return self.do_call(st, f, b, t, base, seen)
        if k in ('resume', 'abort'):
            return []
        raise Undecided('terminator ' + k)

    def do_call(self, st, f, b, t, base, seen):
        self.calls_seen += 1
        d = len(st.fr) - 1
        args = []
        for o in t[2]:
            args.append(self.operand(st, f, o))
        for o in t[2]:
            if o[0] == 'm' and not o[1][1]:
                v = st.heap.pop((d, o[1][0]), None)
        tgt = t[1]
        if tgt[0] == 'ptr':
            fv = self.operand(st, f, tgt[1])
            res = self.call_value(st, fv, args)
        elif tgt[0] == 'fn':
            callee = self.p.fns[tgt[1]]
            if tgt[2].startswith('std::ops::Fn') and 'spread' not in callee and self.p.types[callee['ty']]['k'] == 'closure':
                args = args[:-1] + list(args[-1][3])
            h = self.hooks.get('rec')
            res = h(self, st, callee, args) if h else None
            h = self.hooks.get('call')
            if res is None and h:
                res = h(self, st, callee, args)
            if res is None:
                res = self.try_native(st, callee, tgt[2], args)
            if res is None:
                if t[4] is None:
                    res = [(st, Panic('call of %s at %s' % (callee['name'], self.user_where(st))))]
                elif 'blocks' in callee:
                    c, p, _ = self.place(st, f, t[3])
                    s2 = self.push(st, tgt[1], args, (c, p), t[4])
                    if 0 in self.p.loops(tgt[1]):
                        return self.loop_head(s2, tgt[1], 0, seen)
                    return [s2]
                elif self.ctor(callee) is not None:
                    rt, var = self.ctor(callee)
                    res = [(st, ('agg', rt, var, tuple(args)))]
                else:
                    raise Undecided('no model for %s [%s]' % (callee['name'], tgt[2]))
        else:
            raise Undecided('unresolved call %r' % (tgt,))
        out = []
        for s2, v in res:
            if isinstance(v, Panic):
                out.append((s2, v))
                continue
            if t[4] is None:
                out.append((s2, Panic('diverging call at %s' % self.user_where(s2))))
                continue
            c, p, ty = self.place(s2, f, t[3])
            if is_term(v):
                self.ensure_dom(s2, v, ty)
            if v is None:
                v = ('agg', ty, 0, ())
            self.write(s2, c, p, v)
            out += self.goto(s2, t[4], seen)
        return out

    def ctor(self, callee):
        """a tuple struct or variant constructor used as a function"""
        if 'sig' not in callee:
            return None
        rt = callee['sig'][1]
        t = self.p.types[rt]
        if t['k'] != 'adt' or callee['kind'] != 'item':
            return None
        last = callee['sdef'].rsplit('::', 1)[-1]
        for i, v in enumerate(t['variants']):
            if v['name'] == last and len(v['fields']) == len(callee['sig'][0]):
                return rt, i
        return None

    def try_native(self, st, callee, orig, args):
        for n in self.native_names(callee, orig):
            m = self.nat.get(n)
            if m is not None:
                r = m(self, st, callee, args)
                if r is not None:
                    return r
        return None

    def native_names(self, callee, orig):
        r = callee.get('_nn', {}).get(orig)
        if r is None:
            r = [strip_generics(orig), callee['sdef'], callee['name']]
            callee.setdefault('_nn', {})[orig] = r
        return r


def repr_ch(v, ts):
    if ts.get('k') == 'char':
        return repr(chr(v)) if v < 0x110000 and not 0xD800 <= v < 0xE000 else str(v)
    return str(v)


def term_str(t):
    if isinstance(t, int):
        return str(t)
    if isinstance(t, tuple) and t:
        if t[0] == 'sym' and len(t) >= 4 and t[1] == 'c':
            return 'char %s of %s' % (t[3], term_str(t[2]))
        if t[0] in ('cmp',):
            return '(%s %s 0)' % (term_str(t[2]), {'Lt': '<', 'Le': '<=', 'Eq': '=='}[t[1]])
        if t[0] == 'not':
            return 'not ' + term_str(t[1])
        if t[0] == 'lin':
            s = ' + '.join(('%d*' % k if k != 1 else '') + term_str(a) for a, k in t[2])
            return s + (' + %d' % t[1] if t[1] > 0 else (' - %d' % -t[1] if t[1] < 0 else ''))
        if t[0] == 'sym':
            return ':'.join(term_str(x) for x in t[1:])
        return '%s(%s)' % (t[0], ', '.join(term_str(x) for x in t[1:]))
    return str(t)
