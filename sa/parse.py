"""Json::parse (C01-C05): a machine for JSON texts, read beside the analysed parser; recursion by induction."""
from . import terms as T
from .terms import domain, decide
from .core import *
from . import std, coll, loops
from .machine import Machine
from .conv import obj_put, reg
from .spec import nvar

WS = ((9, 10), (13, 13), (32, 32))
DIG = ((48, 57),)


def one(c):
    return ((ord(c), ord(c)),)


def either(s):
    return T.inorm([(ord(c), ord(c)) for c in s])


def ctl(x):
    return ('ctl', x)


def chain(name):
    """(innermost text, trimmed sets)"""
    sets = []
    while isinstance(name, tuple) and name and name[0] == 'trim':
        sets.append(name[2])
        n = name[1]
        if isinstance(n, tuple) and len(n) == 1 and isinstance(n[0], tuple) and n[0][0] == 'S':
            n = n[0][1]
        name = n
    return name, sets


def untrim(atoms):
    """text whose parse equals the parse of atoms: white space trimmed on purpose is put back"""
    while len(atoms) == 1 and atoms[0][0] == 'S' and isinstance(atoms[0][1], tuple) and atoms[0][1][0] == 'trim' and T.isubset(atoms[0][1][2], WS):
        n = atoms[0][1][1]
        atoms = n if isinstance(n, tuple) and n and isinstance(n[0], tuple) else (('S', n),)
    return atoms


def norm_text(E, st, atoms):
    """[(st, atoms)] without white space at either end, as far as it is known"""
    out = []
    atoms = untrim(E.flat(st, atoms))
    work = [(st, atoms, 0)]
    while work:
        s, at, side = work.pop()
        i = -1 if side else 0
        if at and at[i][0] == 'lit':
            t = at[i][1].rstrip(' \t\r\n') if side else at[i][1].lstrip(' \t\r\n')
            if t != at[i][1]:
                mid = (('lit', t),) if t else ()
                work.append((s, at[:-1] + mid if side else mid + at[1:], side))
                continue
        elif at and at[i][0] == 'ch':
            for s2, k in E.split(s, at[i][1], [WS, T.inot(WS)]):
                if k == 0:
                    work.append((s2, at[:-1] if side else at[1:], side))
                elif side:
                    out.append((s2, at))
                else:
                    work.append((s2, at, 1))
            continue
        if side:
            out.append((s, at))
        else:
            work.append((s, at, 1))
    return out


def parse_forks(E, st, atoms, rt):
    """the result of parsing a text: [(st, ok?, Result value)]"""
    out = []
    for s, at in norm_text(E, st, atoms):
        work = [s]
        if len(at) == 1 and at[0][0] == 'S' and E.str_nonempty(s, at) is None:
            work = []
            for s2, ex in E.peek_stream(s, at[0][1], 0):
                if ex:
                    work.append(s2)
                else:
                    out.append((s2, False, E.expand(s2, ('opq', rt, ('parsed', ())), 1)))
        elif not at:
            out.append((s, False, E.expand(s, ('opq', rt, ('parsed', ())), 1)))
            continue
        for s2 in work:
            v = ('opq', rt, ('parsed', at))
            d = E.discr_of(s2, v)
            if d not in s2.dom:
                E.setdom(s2, d, ((0, 1),))
            for s3, i in E.split(s2, d, [((0, 0),), ((1, 1),)]):
                out.append((s3, i == 0, E.expand(s3, v, i)))
    return out


def rec_hook(E, rt):
    """induction: a call of a parser that is already running on another text gives the result of parsing that text"""
    entry = {}

    def call(E, st, callee, args):
        if 'blocks' not in callee or callee['crate'] != 'json' or len(args) != 1 or std.ret_ty(callee) != rt:
            return None
        a = args[0]
        try:
            at = std.as_str(E, st, a)
        except Undecided:
            return None
        if not any(k == callee['key'] for k, _, _, _ in st.fr):
            entry.setdefault(callee['key'], at)
            return None
        e = entry.get(callee['key'])
        if e is None:
            raise Undecided('recursion of ' + callee['name'])
        if len(e) != 1 or e[0][0] != 'S':
            raise Undecided('recursion of ' + callee['name'])
        b, sets = chain(e[0][1])
        if b != ('p', 1):
            raise Undecided('recursion of ' + callee['name'])
        if sets and not (len(at) == 1 and at[0][0] == 'S' and isinstance(at[0][1], tuple) and at[0][1][0] == 'trim'):
            raise Undecided('recursion of %s on a text that is not trimmed' % callee['name'])
        return [(s, v) for s, ok, v in parse_forks(E, st, at, rt)]
    return call


# ------------------------------------------------------------------ numbers
NUM = ['-', '+', '.', '0', '123456789', 'eE', 'iI', 'nN', 'fF', 'tT', 'yY', 'aA', ' \t\r\n']
NUMSETS = [either(s) for s in NUM]
NUMSETS.append(T.inot(T.inorm([x for s in NUMSETS for x in s])))
NUMSETS[-1] = T.iand(NUMSETS[-1], T.CHAR)
NAME = NUM + ['?']


def jnum(s, c):
    if c == ' \t\r\n':
        return 'w' if s in ('z', 'd', 'f', 'x', 'w') else 'dead'
    dg = c in ('0', '123456789')
    if s == 's':
        return 'm' if c == '-' else 'z' if c == '0' else 'd' if dg else 'dead'
    if s == 'm':
        return 'z' if c == '0' else 'd' if dg else 'dead'
    if s in ('z', 'd'):
        if s == 'd' and dg:
            return 'd'
        return '.' if c == '.' else 'e' if c == 'eE' else 'dead'
    if s in ('.', 'f'):
        return 'f' if dg else 'e' if s == 'f' and c == 'eE' else 'dead'
    if s == 'e':
        return 'x' if dg else 'es' if c in '+-' else 'dead'
    if s in ('es', 'x'):
        return 'x' if dg else 'dead'
    return 'dead'


WORDS = ('infinity', 'inf', 'nan')


def rnum(s, c):
    dg = c in ('0', '123456789')
    if isinstance(s, tuple):
        t = s[1]
        r = ''.join(ch for ch in 'infinityna' if ch in c.lower())[:1]
        t2 = t + r
        return ('w', t2) if r and any(w.startswith(t2) for w in WORDS) else 'dead'
    if s in ('s', 'sg'):
        if s == 's' and c in ('-', '+'):
            return 'sg'
        if c in ('iI', 'nN'):
            return ('w', c[0])
        return 'd' if dg else 'p' if c == '.' else 'dead'
    if s == 'd':
        return 'd' if dg else 'q' if c == '.' else 'e' if c == 'eE' else 'dead'
    if s == 'p':
        return 'q' if dg else 'dead'
    if s == 'q':
        return 'q' if dg else 'e' if c == 'eE' else 'dead'
    if s == 'e':
        return 'x' if dg else 'es' if c in ('+', '-') else 'dead'
    if s in ('es', 'x'):
        return 'x' if dg else 'dead'
    return 'dead'


def raccept(s):
    return s in ('d', 'q', 'x') or isinstance(s, tuple) and s[1] in WORDS


SIMPLE = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
ESCSETS = [one(c) for c in SIMPLE] + [one('u')]
ESCSETS.append(T.iand(T.inot(T.inorm([x for s in ESCSETS for x in s])), T.CHAR))
HEXSETS = [DIG, ((65, 70),), ((97, 102),)]
HEXSETS.append(T.iand(T.inot(T.inorm([x for s in HEXSETS for x in s])), T.CHAR))
HEXOFF = (48, 55, 87)


def rest(*sets):
    return T.iand(T.inot(T.inorm([x for s in sets for x in s])), T.CHAR)


STRUCT = ['"', '\\', ',', ':', '[', ']', '{', '}']
SCAN = [one(c) for c in STRUCT] + [WS]
SCAN.append(rest(*SCAN))
START = [WS, one('n'), one('t'), one('f'), T.inorm(list(DIG) + [(45, 45)]), one('"'), one('['), one('{')]
START.append(rest(*START))
STARTK = ['ws', 'lit', 'lit', 'lit', 'num', 'str', 'arr', 'obj', 'other']
CLASS = {'lit': 'C01', 'other': 'C01', 'empty': 'C01', 'str': 'C02', 'num': 'C03', 'arr': 'C04', 'obj': 'C05'}
STRS = [one('"'), one('\\'), ((0, 31),)]
STRS.append(rest(*STRS))


class ParseMachine(Machine):
    """mode S, class C, accumulated value V, pieces K and R, depth D, flags"""

    def __init__(self, o, rt, mapty, want=None, text=('p', 1)):
        self.o = o
        self.rt = rt
        self.mapty = mapty
        self.want = want
        self.text = text

    def init(self, E, st, args):
        st.mon[reg('S')] = ctl('start')

    def base(self, E, st):
        b = st.mon.get(reg('B'))
        if b is not None:
            return b[1]
        best = None
        for n in st.streams:
            c, sets = chain(n)
            if c == self.text and (best is None or len(sets) > best[0]):
                best = (len(sets), n)
        return best[1] if best else None

    def need(self, E, st):
        m = st.mon[reg('S')][1]
        if m in ('err', 'ok', 'value'):
            return None
        b = self.base(E, st)
        if b is None:
            b = self.text
        return b

    def item(self, B, pos):
        return cell_char(B, pos)

    def peek(self, E, st, B, pos):
        return E.peek_stream(st, B, pos)

    def held(self, E, st, B):
        pos = st.mon.get(('pos', B), 0)
        if pos >= st.streams.get(B, (0, 0, 0))[0]:
            return 1 << 60
        best = [1 << 60]
        seen = set()

        def scan(v):
            if not isinstance(v, tuple) or not v or v[0] in ('str', 'lin', 'op', 'cmp', 'not', 'pw', 'sel') or v in seen:
                return
            if v[0] == 'sym':
                if v[1] == 'c' and v[2] == B and v[3] >= pos:
                    best[0] = min(best[0], v[3])
                return
            seen.add(v)
            if v[0] in ('ref', 'box') and v[1] in st.heap:
                scan(st.heap[v[1]])
            for x in v:
                if isinstance(x, tuple):
                    scan(x)
        for d, (key, bb, dest, ret) in enumerate(st.fr):
            live = E.p.live(key)[0]
            b = bb if d == len(st.fr) - 1 else st.fr[d + 1][3]
            for n in live[b] if b is not None else ():
                if (d, n) in st.heap:
                    scan(st.heap[(d, n)])
        return best[0]

    # -- helpers
    def go(self, st, mode, **regs):
        st.mon[reg('S')] = ctl(mode)
        for k, v in regs.items():
            st.mon[reg(k)] = v
        return st

    def drop(self, st, *names):
        for n in names:
            st.mon.pop(reg(n), None)
        return st

    def err(self, st):
        self.drop(st, 'V', 'K', 'R', 'D', 'Q', 'X', 'Z', 'N', 'L', 'U', 'H', 'M')
        return [self.go(st, 'err')]

    def tail(self, st, v):
        self.drop(st, 'K', 'R', 'D', 'Q', 'X', 'Z', 'N', 'L', 'U', 'H', 'M')
        return [self.go(st, 'tail', V=v)]

    def put(self, st, name, c):
        r = st.mon[reg(name)]
        st.mon[reg(name)] = ('str', atoms_norm(r[1] + (('ch', c) if not isinstance(c, str) else ('lit', c),)))

    def feed(self, E, st, B, el):
        if reg('B') not in st.mon:
            st.mon[reg('B')] = ('base', B)
        return getattr(self, 'm_' + st.mon[reg('S')][1])(E, st, B, el)

    # -- modes
    def m_start(self, E, st, B, el):
        if el is None:
            return self.kind(st, 'empty') and self.err(st)
        out = []
        for s, i in E.split(st, el, START):
            k = STARTK[i]
            if k == 'ws':
                out.append(s)
                continue
            if not self.kind(s, k):
                continue
            if k == 'lit':
                out.append(self.go(s, 'lit', L=('lit', ('null', 'true', 'false')[i - 1], 1)))
            elif k == 'other':
                out += self.err(s)
            elif k == 'num':
                s = self.go(s, 'num', N=('num', 's', 's'))
                out += self.m_num(E, s, B, el)
            elif k == 'str':
                out.append(self.go(s, 'str', V=('str', ())))
            elif k == 'arr':
                out.append(self.go(s, 'arr', V=('seq', ()), R=('str', ()), D=0, Q=ctl(0), X=ctl(0), Z=ctl(0), M=ctl(0)))
            elif k == 'obj':
                out.append(self.go(s, 'okey', V=('map', None, ()) + self.mapty, K=('str', ()), R=('str', ()), D=0, Q=ctl(0), X=ctl(0),
                                   Z=ctl(0), M=ctl(0)))
        return out

    def kind(self, st, k):
        st.mon[reg('C')] = ctl(k)
        return [st] if self.want is None or k in self.want else []

    def m_lit(self, E, st, B, el):
        _, w, i = st.mon[reg('L')]
        if el is None:
            return self.err(st)
        out = []
        for s, k in E.split(st, el, [one(w[i]), rest(one(w[i]))]):
            if k:
                out += self.err(s)
            elif i + 1 == len(w):
                out += self.tail(s, self.o.null() if w == 'null' else self.o.mk('Boolean', int(w == 'true')))
            else:
                out.append(self.go(s, 'lit', L=('lit', w, i + 1)))
        return out

    def m_tail(self, E, st, B, el):
        if el is None:
            return [self.go(st, 'ok')]
        out = []
        for s, k in E.split(st, el, [WS, rest(WS)]):
            out += [s] if k == 0 else self.err(s)
        return out

    def m_num(self, E, st, B, el):
        _, j, r = st.mon[reg('N')]
        if el is None:
            return self.num_end(E, st, B, j, r)
        out = []
        for s, k in E.split(st, el, NUMSETS):
            j2, r2 = jnum(j, NAME[k]), rnum(r, NAME[k])
            if j2 == 'dead' and r2 == 'dead':
                out += self.num_end(E, s, B, j2, r2)
            else:
                out.append(self.go(s, 'num', N=('num', j2, r2)))
        return out

    def num_end(self, E, st, B, j, r):
        """drop states whose facts about the standard parser cannot be; fork on finiteness"""
        acc = j in ('z', 'd', 'f', 'x', 'w')
        st.mon[reg('A')] = ctl(int(raccept(r) and j != 'w'))
        if not self.possible(st, B):
            return []
        if not acc:
            return self.err(st)
        key = None
        for k in st.dom:
            if k[0] == 'sym' and k[1] == 'fclass' and isinstance(k[2], tuple) and k[2][0] == 'parsed' and self.whole(k[2][1], B):
                key = k
        if key is None:
            key = E.fclass(st, ('parsed', (('S', self.text),), 64))
        res = []
        for s, i in E.split(st, key, [((0, 0),), ((1, 3),)]):
            if i:
                res += self.err(s)
            else:
                self.drop(s, 'N')
                s.mon[reg('V')] = ('numtext', B)
                res.append(self.go(s, 'ok'))
        return res

    def possible(self, st, B):
        """False if the facts about the standard float parser contradict its grammar"""
        can = st.mon[reg('A')][1]
        for k, d in st.dom.items():
            if k[0] == 'sym' and k[1] == 'parses' and self.whole(k[3], B) and not any(lo <= can <= hi for lo, hi in d):
                return False
        return True

    def whole(self, atoms, B):
        """atoms are the whole text (without white space around it)"""
        if len(atoms) == 1 and atoms[0][0] == 'S':
            c, sets = chain(atoms[0][1])
            return c == self.text and all(T.isubset(x, WS) for x in sets)
        chars = [a for a in atoms]
        flat = []
        for a in chars:
            if a[0] == 'ch' and isinstance(a[1], tuple) and a[1][0] == 'sym' and a[1][1] == 'c' and a[1][2] == B:
                flat.append(a[1][3])
            elif a[0] == 'lit':
                flat += [None] * len(a[1])
            else:
                return False
        return all(x is None or x == i for i, x in enumerate(flat))

    # -- strings
    def m_str(self, E, st, B, el):
        if el is None:
            return self.err(st)
        out = []
        for s, k in E.split(st, el, STRS):
            if k == 0:
                v = s.mon[reg('V')]
                out += self.tail(s, self.o.mk('String', v))
            elif k == 1:
                out.append(self.go(s, 'esc'))
            elif k == 2:
                out += self.err(s)
            else:
                self.put(s, 'V', el)
                out.append(s)
        return out

    def m_esc(self, E, st, B, el):
        if el is None:
            return self.err(st)
        out = []
        names = list(SIMPLE)
        for s, k in E.split(st, el, ESCSETS):
            if k < len(names):
                self.put(s, 'V', SIMPLE[names[k]])
                out.append(self.go(s, 'str'))
            elif k == len(names):
                out.append(self.go(s, 'hex', U=0, N=('hex', 0, 0)))
            else:
                out += self.err(s)
        return out

    def m_hex(self, E, st, B, el):
        if el is None:
            return self.err(st)
        _, n, low = st.mon[reg('N')]
        out = []
        for s, k in E.split(st, el, HEXSETS):
            if k == 3:
                out += self.err(s)
                continue
            u = T.add(T.scale(s.mon[reg('U')], 16), T.sub(el, HEXOFF[k]))
            if n < 3:
                out.append(self.go(s, 'hex', U=u, N=('hex', n + 1, low)))
                continue
            self.drop(s, 'N', 'U')
            if low:
                h = s.mon[reg('H')]
                self.drop(s, 'H')
                for s2, i in E.split(s, u, [((0xDC00, 0xDFFF),), ((0, 0xDBFF), (0xE000, 0xFFFF))]):
                    if i:
                        out += self.err(s2)
                    else:
                        cp = T.add(T.add(T.scale(T.sub(h, 0xD800), 1024), T.sub(u, 0xDC00)), 0x10000)
                        self.put(s2, 'V', cp)
                        out.append(self.go(s2, 'str'))
                continue
            for s2, i in E.split(s, u, [((0, 0xD7FF), (0xE000, 0xFFFF)), ((0xD800, 0xDBFF),), ((0xDC00, 0xDFFF),)]):
                if i == 0:
                    self.put(s2, 'V', u)
                    out.append(self.go(s2, 'str'))
                elif i == 1:
                    out.append(self.go(s2, 'ls1', H=u))
                else:
                    out += self.err(s2)
        return out

    def m_ls1(self, E, st, B, el):
        return self.want_char(E, st, el, '\\', lambda s: [self.go(s, 'ls2')])

    def m_ls2(self, E, st, B, el):
        return self.want_char(E, st, el, 'u', lambda s: [self.go(s, 'hex', U=0, N=('hex', 0, 1))])

    def want_char(self, E, st, el, c, f):
        if el is None:
            return self.err(st)
        out = []
        for s, k in E.split(st, el, [one(c), rest(one(c))]):
            out += f(s) if k == 0 else self.err(s)
        return out

    # -- pieces of arrays and objects
    def scan(self, E, st, el, name, sep, closer):
        """yields (state, event): 'sep', 'end' (closer at depth 0) or None after adding the character to piece name"""
        q = st.mon[reg('Q')] == ctl(1)
        if st.mon[reg('X')] == ctl(1):
            self.put(st, name, el)
            st.mon[reg('X')] = ctl(0)
            yield st, None
            return
        empty = not st.mon[reg(name)][1]
        for s, k in E.split(st, el, SCAN):
            c = STRUCT[k] if k < len(STRUCT) else None
            if q:
                if c == '"':
                    s.mon[reg('Q')] = ctl(0)
                elif c == '\\':
                    s.mon[reg('X')] = ctl(1)
                self.put(s, name, el)
                yield s, None
                continue
            if k == len(STRUCT) and empty:
                yield s, None
                continue
            if c in (',', ':', ']', '}') and (c in sep or c == closer or c in ']}'):
                D = s.mon[reg('D')]
                for s2, z in E.branch(s, T.cmp('Eq', D, 0)):
                    if z and c in sep:
                        yield s2, 'sep'
                        continue
                    if z and c == closer:
                        yield s2, 'end'
                        continue
                    if c in ']}':
                        if z:
                            s2.mon[reg('Z')] = ctl(1)
                        s2.mon[reg('D')] = T.sub(s2.mon[reg('D')], 1)
                    self.put(s2, name, el)
                    yield s2, None
                continue
            if c == '"':
                s.mon[reg('Q')] = ctl(1)
            elif c == '\\':
                s.mon[reg('X')] = ctl(1)
                s.mon[reg('Z')] = ctl(1)
            elif c in ('[', '{'):
                s.mon[reg('D')] = T.add(s.mon[reg('D')], 1)
            self.put(s, name, el)
            yield s, None

    def m_arr(self, E, st, B, el):
        if el is None:
            return self.err(st)
        out = []
        for s, ev in self.scan(E, st, el, 'R', ',', ']'):
            if ev is None:
                out.append(s)
                continue
            r = s.mon[reg('R')][1]
            if ev == 'end' and not r and s.mon[reg('M')] == ctl(0):
                out += self.tail(s, self.o.mk('Array', s.mon[reg('V')]))
                continue
            doom = s.mon[reg('Z')] == ctl(1)
            for s2, ok, v in parse_forks(E, s, r, self.rt):
                if not ok:
                    out += self.err(s2)
                elif doom:
                    continue
                else:
                    a = s2.mon[reg('V')]
                    nv = ('seq', a[1] + (('e', v[3][0]),))
                    if ev == 'sep':
                        out.append(self.go(s2, 'arr', V=nv, R=('str', ()), M=ctl(1)))
                    else:
                        out += self.tail(s2, self.o.mk('Array', nv))
        return out

    def m_okey(self, E, st, B, el):
        if el is None:
            return self.err(st)
        out = []
        kempty = not st.mon[reg('K')][1]
        first = st.mon[reg('M')] == ctl(0)
        for s, ev in self.scan(E, st, el, 'K', ':', '}' if kempty and first else None):
            if ev is None:
                out.append(s)
            elif ev == 'end':
                out += self.tail(s, self.o.mk('Object', s.mon[reg('V')]))
            else:
                out.append(self.go(s, 'oval'))
        return out

    def m_oval(self, E, st, B, el):
        if el is None:
            return self.err(st)
        out = []
        sv = self.o.vars['String']
        for s, ev in self.scan(E, st, el, 'R', ',', '}'):
            if ev is None:
                out.append(s)
                continue
            k = s.mon[reg('K')][1]
            r = s.mon[reg('R')][1]
            doom = s.mon[reg('Z')] == ctl(1)
            for s2, ok, v in parse_forks(E, s, k, self.rt):
                if not ok:
                    out += self.err(s2)
                    continue
                j = v[3][0]
                d = E.discr_of(s2, j)
                if d not in s2.dom:
                    E.setdom(s2, d, ((0, len(self.o.vars) - 1),))
                for s3, i in E.split(s2, d, [((sv, sv),), T.iand(T.inot(((sv, sv),)), ((0, 9),))]):
                    if i:
                        out += self.err(s3)
                        continue
                    key = E.expand(s3, j, sv)[3][0][1]
                    for s4, ok2, v2 in parse_forks(E, s3, r, self.rt):
                        if not ok2:
                            out += self.err(s4)
                            continue
                        if doom:
                            continue
                        for s5, m in obj_put(E, s4, s4.mon[reg('V')], key, v2[3][0], self.mapty[1], True):
                            if ev == 'sep':
                                out.append(self.go(s5.copy(), 'okey', V=m, K=('str', ()), R=('str', ()), M=ctl(1)))
                            else:
                                out += self.tail(s5.copy(), self.o.mk('Object', m))
        return out

    def expect(self, E, st):
        if st.mon[reg('S')] == ctl('err'):
            return ('err', None)
        return ('ok', st.mon[reg('V')])

    # -- reading on by itself
    def finish(self, E, st, extra=14):
        work = [(st, 0)]
        out = []
        seen = set()
        n = 0
        while work:
            s, k = work.pop(0)
            n += 1
            if n > 6000:
                raise Undecided('specification machine does not settle')
            B = self.need(E, s)
            if B is None:
                if reg('A') not in s.mon or self.possible(s, self.base(E, s)):
                    out.append((s, k))
                continue
            pos = s.mon.get(('pos', B), 0)
            for s2, more in self.peek(E, s.copy(), B, pos):
                kn = s.streams.get(B, (0, 0, 0))
                fresh = pos >= kn[0] and not kn[1]
                k2 = k + (1 if fresh and more else 0)
                for x in self.step(E, s2, B, pos, more):
                    if fresh and more:
                        key = tuple(x.mon.get(reg(r)) for r in 'SQXZMNLD')
                        if key in seen:
                            continue
                        seen.add(key)
                        if k2 > extra:
                            continue
                    work.append((x, k2))
        return out
