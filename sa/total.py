"""Panics (C09) and termination (C10): the same explorations as the other checks, beside the same machines, looking only at exits that panic
or at loops and recursions that make no progress."""
from . import graph, compose, loops, parse, std
from .run import Runner
from .core import Panic, Undec, Undecided


def endless(why):
    return why.startswith('infinite') or why.startswith('diverging')


class Sieve:
    """a report that keeps what is recorded while it is open"""
    def __init__(self, rep):
        self.__dict__['rep'] = rep
        self.__dict__['open'] = False

    def __getattr__(self, n):
        return getattr(self.rep, n)

    def violation(self, *a):
        if self.open:
            self.rep.violation(*a)

    def oblig(self, *a):
        if self.open:
            self.rep.oblig(*a)


class Exits(Runner):
    """a runner that looks at the exits of every exploration with `look` and drops what the bodies conclude"""
    def __init__(self, R, look, whole=()):
        Runner.__init__(self, R.p, Sieve(R.rep))
        self.look = look
        self.whole = whole       # roots whose bodies' conclusions count
        self.parts = None
        self.seen = set()
        self.t0 = R.t0

    def und(self, key, msg):
        if self.rep.open:
            Runner.und(self, key, msg)

    def explore(self, E, name, prep=None, f=None):
        from . import checks
        self.rep.open = True
        try:
            self.setup(E, name)
            r = Runner.explore(self, E, name, prep, f)
            if r is not None:
                V = checks.Verdict(self, self.rep.prop, name)
                if self.parts:
                    V.soft = checks.bypass(self, E, self.parts)
                self.seen.add(name)
                self.look(self, V, E, name, r[2])
        except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, RecursionError) as e:
            self.und('internal', '%s: %s %s' % (name, type(e).__name__, e))
            raise
        finally:
            self.rep.open = name in self.whole
        return r

    def setup(self, E, name):
        pass

    def body(self, f, parts=None):
        self.parts = parts
        f(self)
        self.rep.open = False


def panics(R, V, E, name, exits):
    from . import checks
    for s, v in exits:
        if isinstance(v, Undec):
            R.und(name, v.why)
        elif isinstance(v, Panic) and not endless(v.why) and name not in R.whole:
            if checks.alloc_panic(s, v.why):
                V.bad(E, s, 'panics (%s)' % v.why, 'memory')
            else:
                V.bad(E, s, 'panics (%s)' % v.why, 'panic')
        else:
            R.oblig(True, '%s: %s' % (name, 'an exit that returns'))


def everything(X):
    """the bodies of the checks that between them explore every public operation"""
    from . import checks
    for want in (('lit', 'other', 'empty'), ('str',), ('num',), ('arr',), ('obj',)):
        X.body(lambda R: checks.c_parse(R, want))
    X.body(lambda R: checks.c06(R))
    X.body(lambda R: checks.c07(R))
    X.body(lambda R: checks.c08(R))
    for c in (checks.c11, checks.c12, checks.c13, checks.c14, checks.c16, checks.c19, checks.c20, checks.c21, checks.c24, checks.c18, checks.c17):
        X.body(c)
    P = compose.Parts(X)
    X.body(checks.c22, P.keys)
    X.body(checks.c23, P.keys)


def c09(R):
    X = Exits(R, panics, ('r_index_key', 'r_index_idx', 'r_index_mut_key', 'r_index_mut_idx'))
    everything(X)
    R.rep.counts['explorations'] = len(X.seen)


# ------------------------------------------------------------------ termination
BASED = ('fld', '*', 'at', 'val', 'el', 'key', 'rev', 'ent', 'entry', 't', 'trim')


def ancestors(t):
    """the terms t is a part of, itself first"""
    out = [t]
    while isinstance(t, tuple) and len(t) > 1 and t[0] in BASED:
        t = t[1]
        out.append(t)
    return out


def leaves(E, st, v, out, cells, depth=0):
    """the opaque terms a value is made of and the heap cells it owns"""
    if not isinstance(v, tuple) or not v or depth > 40:
        return
    if v[0] == 'opq':
        out.append(v[2])
    elif v[0] == 'agg':
        for x in v[3]:
            leaves(E, st, x, out, cells, depth + 1)
    elif v[0] == 'box':
        if v[1] not in cells:
            cells.add(v[1])
            leaves(E, st, st.heap.get(v[1]), out, cells, depth + 1)


def core_of(E, st, v):
    out = []
    leaves(E, st, v, out, set())
    if not out:
        return None
    c = ancestors(out[0])
    for t in out[1:]:
        a = ancestors(t)
        c = [x for x in c if x in a]
    return c[0] if c else None


class Arg:
    """an argument as it is at the call"""
    def __init__(self, E, st, a):
        self.text = self.val = self.core = self.cell = None
        self.cells = set()
        try:
            self.text = parse.untrim(E.flat(st, std.as_str(E, st, a)))
            return
        except (Undecided, LookupError, TypeError, AttributeError, ValueError):
            pass
        self.val = a
        if isinstance(a, tuple) and a and a[0] == 'ref':
            self.cell = a[1]
            try:
                self.val = E.read(st, a[1], a[2])
            except (Undecided, LookupError, TypeError, AttributeError, ValueError):
                return
        elif isinstance(a, tuple) and a and a[0] == 'box':
            self.cell = a[1]
            self.val = st.heap.get(a[1], a)
        leaves(E, st, self.val, [], self.cells)
        self.core = core_of(E, st, self.val)


def mentions(x, what):
    if x == what:
        return True
    return isinstance(x, (tuple, list)) and any(mentions(y, what) for y in x)


def text_part(E, st, old, new):
    """is new a proper part of the text old"""
    if len(old) != 1 or old[0][0] != 'S':
        return None
    base = parse.chain(old[0][1])[0]
    if not new:
        return True

    def whole(n):
        return parse.chain(n)[0] == base
    if len(new) == 1 and new[0][0] == 'S' and whole(new[0][1]):
        return False
    for x in new:
        if x[0] == 'S':
            if whole(x[1]) or not any(mentions(v, x) for v in st.mon.values()):
                return None
        elif x[0] == 'in':
            if whole(x[1]) and not (isinstance(x[2], int) and x[2] > 0):
                return None
        elif x[0] == 'ch' and isinstance(x[1], tuple) and x[1][:2] == ('sym', 'c') and whole(x[1][2]) and x[1][3] == 0 and not st.streams.get(x[1][2], (0, 0, 0))[2]:
            return None
    return True


def leaf_variant(E, ty, i):
    t = E.p.types[ty]
    return not any(t['def'].split('::')[-1] in E.p.types[x[1]]['str'] for x in t['variants'][i]['fields'])


def compare(E, st, old, new):
    """'less', 'same' or None"""
    o, n = old.val, new.val
    if o and n and o[0] == 'opq' and n[0] == 'agg' and n[1] == o[1] and len(E.p.types[n[1]].get('variants', ())) > 1 and leaf_variant(E, n[1], n[2]):
        d = st.dom.get(E.discr_of(st, o))
        if d and not any(leaf_variant(E, o[1], i) for a, b in d for i in range(a, b + 1)):
            return 'less'
    if old.text is not None and new.text is not None:
        r = text_part(E, st, old.text, new.text)
        return 'less' if r else 'same' if r is False else None
    if old.core is not None and new.core is not None:
        if new.core == old.core:
            return 'same' if old.val == new.val else None
        return 'less' if old.core in ancestors(new.core) else None
    if new.cell is not None and new.cell in old.cells:
        return 'less'
    return 'same' if old.val == new.val and old.cell == new.cell else None


class Ends(Exits):
    def __init__(self, R):
        Exits.__init__(self, R, self.ends)
        self.rec = {}
        self.calls = 0

    def setup(self, E, name):
        E.zero = {}
        E.ways = None if self.exact else loops.Ways()
        entry = {}
        down = {}                # function -> positions that got smaller at every recursive call
        self.now = down

        def hook(E, st, c, args):
            k = c['key']
            if 'blocks' not in c or c['crate'] not in ('json', 'vroots'):
                return None
            if k not in self.rec:
                self.rec[k] = c['crate'] == 'json' and graph.recursive(self.p, k)
            if not self.rec[k]:
                return None
            i = next((i for i, x in enumerate(st.fr) if x[0] == k), None)
            here = [Arg(E, st, a) for a in args]
            at = tuple((x[0], x[1]) for x in st.fr[:len(st.fr) if i is None else i])
            if i is None:
                entry.setdefault((k, at), []).append(here)
                return None
            self.calls += 1
            olds = entry.get((k, at), ())
            best = None
            same = bool(olds)
            for old in olds:
                rs = [compare(E, st, a, b) for a, b in zip(old, here)]
                same = same and all(r == 'same' for r in rs)
                less = {n for n, r in enumerate(rs) if r == 'less'}
                best = less if best is None else best & less
            if same and len(olds) == 1:
                return [(st, Panic('infinite recursion: %s calls itself with what it was given' % c['name']))]
            down[k] = (best or set()) & down.get(k, best or set())
            return None
        E.hooks['rec'] = hook

    @staticmethod
    def ends(R, V, E, name, exits):
        for s, v in exits:
            if isinstance(v, Undec):
                R.und(name, v.why)
            elif isinstance(v, Panic) and endless(v.why):
                V.bad(E, s, 'does not end: %s' % v.why, 'endless')
            else:
                R.oblig(True, '%s: an exit' % name)
        for k, d in R.now.items():
            R.oblig(bool(d), '%s: each recursive call of %s is on a smaller argument %s' % (name, R.p.fns[k]['name'], sorted(x + 1 for x in d)))
            if not d:
                R.und('%s:%s' % (name, k), '%s: no argument of %s is seen to get smaller at every recursive call' % (name, R.p.fns[k]['name']))
        if R.exact:
            return
        for s, v in exits:
            E.ways.leave(s)
        R.stuck = getattr(R, 'stuck', 0) + len(E.ways.state)
        for c in E.ways.stuck()[:1]:
            V.bad(E, c, 'does not end: no way out of the loop at %s' % E.user_where(c), 'endless')
        for stack, edges in E.zero.items():
            c = cycle(edges)
            R.oblig(not c, '%s: loop in %s' % (name, R.p.fns[stack[-1][0]]['name']))
            if c:
                R.und('%s:loop:%s:%s' % (name, stack[-1][0], stack[-1][1]), '%s: a loop in %s can go round without reading more of its input' % (name, R.p.fns[stack[-1][0]]['name']))


def cycle(edges):
    """is there a cycle in {node: set of nodes}"""
    state = {}
    for r in edges:
        if r in state:
            continue
        work = [(r, iter(edges.get(r, ())))]
        state[r] = 1
        while work:
            n, it = work[-1]
            for m in it:
                if state.get(m) == 1:
                    return True
                if m not in state:
                    state[m] = 1
                    work.append((m, iter(edges.get(m, ()))))
                    break
            else:
                state[n] = 2
                work.pop()
    return False


def c10(R):
    X = Ends(R)
    everything(X)
    R.rep.counts['explorations'] = len(X.seen)
    R.rep.counts['recursive_calls'] = X.calls
    R.rep.counts['loop_states'] = getattr(X, 'stuck', 0)


# ------------------------------------------------------------------ stack use
DEEP = 8                         # activations that must follow one pattern
KINDS = {'text-nesting': 'parsing a text calls itself for every level of nesting in it',
         'value-nesting': 'an operation on a value calls itself for every level of nesting in it',
         'path-length': 'an operation on a path calls itself for every step of it'}


def steps(a, b, out):
    """the differences of two trees: integer leaves that changed, True when they differ otherwise"""
    if type(a) is int and type(b) is int:
        if a != b:
            out.append(b - a)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = False
        for x, y in zip(a, b):
            r = steps(x, y, out) or r
        return r
    return a != b


def pattern(acts):
    """how one argument changes over the activations: 'same', 'on' (forward through something by a constant step), 'grows' or None"""
    kinds = set()
    for a, b in zip(acts, acts[1:]):
        d = []
        other = steps(a, b, d)
        kinds.add('grows' if other else 'same' if not d else ('on',) + tuple(d))
    if len(kinds) > 1:
        return None
    k = kinds.pop()
    return k if isinstance(k, str) else 'on' if all(x > 0 for x in k[1:]) else None


class Stack(Exits):
    def __init__(self, R):
        Exits.__init__(self, R, self.grows)
        self.rec = {}
        self.met = {}
        self.calls = 0

    def setup(self, E, name):
        def hook(E, st, c, args):
            k = c['key']
            if 'blocks' not in c or c['crate'] not in ('json', 'vroots'):
                return None
            if k not in self.rec:
                self.rec[k] = c['crate'] == 'json' and graph.recursive(self.p, k)
            if not self.rec[k]:
                return None
            here = [Arg(E, st, a) for a in args]
            n = len(st.fr)
            live = tuple(x for x in st.hist.get('#rec', ()) if x[1] < n and st.fr[x[1]][0] == x[0])
            st.hist = dict(st.hist)
            st.hist['#rec'] = live + ((k, n, here),)
            olds = [x[2] for x in live if x[0] == k]
            if not olds:
                return None
            self.calls += 1
            for w in {self.kind(E, st, c, old, here) for old in olds} - {None}:
                self.met.setdefault(w, set()).add(c['name'])
                return None
            if len(olds) >= DEEP:
                acts = (olds + [here])[-DEEP:]
                ps = [pattern([x[i].text if x[i].text is not None else x[i].val for x in acts]) for i in range(len(here))]
                own = [self.mutable(E, c, i) for i in range(len(here))]
                if 'on' in ps and all(p or o for p, o in zip(ps, own)):
                    return [(st, Panic('calls itself over and over: %s, once for every piece of what it is given' % c['name']))]
            return None
        E.hooks['rec'] = hook

    def mutable(self, E, c, i):
        """an argument the function only adds to does not decide how often it calls itself"""
        t = E.p.types[c['locals'][i + 1]]
        return t['k'] == 'ref' and t.get('mut')

    @staticmethod
    def kind(E, st, c, old, here):
        for a, b in zip(old, here):
            if a.text is not None and b.text is not None:
                if text_part(E, st, a.text, b.text) and b.text and not any(x[0] == 'in' and x[-1] == 'E' for x in b.text):
                    return 'text-nesting'
            elif a.core is not None and b.core is not None and a.core != b.core and a.core in ancestors(b.core):
                n = [x[0] for x in ancestors(b.core)[:ancestors(b.core).index(a.core)]]
                return 'value-nesting' if {'el', 'val', 'at'} & set(n) else 'path-length'
            elif b.cell is not None and b.cell in a.cells:
                return 'path-length'
            elif isinstance(a.val, tuple) and a.val and b.val and a.val[0] == 'opq' and compare(E, st, a, b) == 'less':
                return 'value-nesting'
        return None

    @staticmethod
    def grows(R, V, E, name, exits):
        for s, v in exits:
            if isinstance(v, Undec):
                R.und(name, v.why)
            elif isinstance(v, Panic) and v.why.startswith('calls itself over'):
                V.bad(E, s, 'the stack grows with the length of the input: %s' % v.why, 'stack')
            else:
                R.oblig(True, '%s: an exit' % name)


def derived(f):
    """written by the compiler over the structure of a type"""
    return any(f['name'].endswith(x) for x in (' as std::clone::Clone>::clone', ' as std::cmp::PartialEq>::eq', ' as std::fmt::Debug>::fmt')) or f.get('kind') == 'shim'


def c26(R):
    X = Stack(R)
    everything(X)
    met = {n for s in X.met.values() for n in s}
    rec = [f for k, f in sorted(R.p.fns.items()) if f['crate'] == 'json' and 'blocks' in f and graph.recursive(R.p, k)]
    far = {f['key']: graph.reach(R.p, graph.calls(R.p, f)) for f in rec}
    known = [f['key'] for f in rec if f['name'] in met]
    for f in rec:
        # every cycle of the call graph goes through a function that was seen to follow nesting or a path
        ok = f['name'] in met or derived(f) or any(m in far[f['key']] and f['key'] in far[m] for m in known)
        R.oblig(ok, '%s: its cycles follow nesting or the steps of a path' % f['name'])
        if not ok and not R.rep.viol:
            R.und('cycle:' + f['key'], '%s calls itself and was not seen to do so on an inner value, an inner text or the rest of a path' % f['name'])
    for k in sorted(X.met):
        R.rep.violation(k, '%s: %s' % (KINDS[k], ', '.join(sorted(X.met[k]))))
    R.rep.counts['explorations'] = len(X.seen)
    R.rep.counts['recursive_calls'] = X.calls
