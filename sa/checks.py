"""One function per property: registers obligations, violations and undecided items in a Report."""
from . import terms as T
from .terms import domain, decide
from .core import Panic, Undec, Undecided, Budget
from . import single, conv, parse, graph, std, compose, macros, encode, paths, pathtext, effects, derive, shapes, total
from .core import cell_char
from .run import Runner, result_parts, err_kind, facts
from .spec import Cmp, show, tshow, nvar, gen, opaque, settled
from .single import Ops, ROOTS, MUTREF

HUGE = 1 << 57


def json_ty(p):
    for i, t in enumerate(p.types):
        if t['k'] == 'adt' and t['def'] == 'json::Json':
            return i


def unit(v):
    return v[0] == 'agg' and not v[3]


def alloc_panic(s, why):
    """a panic of the allocator or of an index computation for a collection no memory can hold"""
    if why.startswith('capacity overflow'):
        return True
    return why.startswith('Overflow(Add') and any(
        a[0] == 'sym' and a[1] == 'v' and d and d[0][0] >= HUGE for a, d in s.dom.items())


def heap_value(E, s, cell, default):
    return s.heap.get(cell, default)


class Verdict:
    def __init__(self, R, prop, name):
        self.R = R
        self.prop = prop
        self.name = name
        self.soft = None         # why no mismatch of this root can be definite

    def bad(self, E, s, what, key=None):
        """a mismatch; definite only on a feasible path that was followed exactly"""
        R = self.R
        key = '%s:%s' % (self.name, key or what.split(':')[0][:60])
        dom = T.feasible(s.dom)
        R.oblig(False)
        if dom is None:
            return
        if self.soft:
            R.und(key, '%s (%s)' % (what, self.soft))
            return
        if s.approx:
            R.und(key, 'not settled: %s' % what)
            return
        if not settled(dom):
            R.und(key, 'on a path that depends on an operation that is not modelled: %s (%s)' % (what, '; '.join('%s in %s' % (tshow(a), d) for a, d in dom.items() if opaque(a))))
            return
        d = list(s.notes()) + ['under: ' + x for x in facts(E, s)]
        R.rep.violation(key, '%s: %s' % (self.name, what), d)

    def cmp(self, E, s, a, b, what, mut=False):
        c = Cmp(E, s)
        try:
            if c.same(a, b, mut):
                return True
        except Undecided as e:
            self.R.und('%s:%s' % (self.name, what), str(e))
            return None
        if c.diff:
            self.bad(E, s, '%s is %s, expected %s (%s: %s / %s)' % (what, show(E, a), show(E, b), c.diff[0], show(E, c.diff[1]), show(E, c.diff[2])), what)
            return False
        v = c.diff or c.vague or ('',)
        self.R.und('%s:%s' % (self.name, what), 'cannot compare %s with %s (%s)' % (show(E, a)[:200], show(E, b)[:200], v[0]))
        return None


def undec_exits(R, name, ex):
    out = []
    for s, v in ex:
        if isinstance(v, Undec):
            R.und(name, v.why)
        else:
            out.append((s, v))
    if not ex and not R.exact:
        R.rep.violation('%s:noexit' % name, '%s never returns' % name)
    return out


def single_roots(R, names, heap=True, errs_only=False):
    for name in names:
        R.two(lambda: single_root(R, name, errs_only))


def single_root(R, name, errs_only):
    prop, spec = ROOTS[name]
    V = Verdict(R, prop, name)
    E = R.engine()
    r = R.explore(E, name)
    if r is None:
        return
    f, args, ex = r
    o = Ops(E, json_ty(R.p))
    ex = undec_exits(R, name, ex)
    for s, v in ex:
        try:
            cases = list(spec(o, s.copy(), args))
        except Undecided as e:
            R.und(name, 'specification: %s' % e)
            continue
        for s2, exp, newj in cases:
            one(R, V, E, o, s2, v, exp, newj, name, errs_only)


def one(R, V, E, o, s, v, exp, newj, name, errs_only):
    mut = any(name.startswith(m) for m in MUTREF)
    if isinstance(v, Panic):
        if exp[0] == 'panic':
            R.oblig(True)
        elif not alloc_panic(s, v.why):
            V.bad(E, s, 'panics (%s), expected %s' % (v.why, exp[0]), 'panic')
        return
    res = result_parts(E, s, v)
    if errs_only:
        if res[0] == 'err':
            got = heap_value(E, s, o.cell, o.J)
            ok = V.cmp(E, s, got, o.J, 'value after an error')
            R.oblig(bool(ok), '%s: error exit leaves the value unchanged' % name)
        return
    ok = True
    if res[0] != exp[0]:
        k = err_kind(E, s, res[1]) if res[0] == 'err' else None
        V.bad(E, s, '%s %s, expected %s' % ('gives', k or res[0], exp[1] if exp[0] == 'err' else exp[0]), 'result')
        return
    if res[0] == 'err':
        k = err_kind(E, s, res[1])
        if k is None:
            R.und(name, 'error kind not determined')
            return
        if k != exp[1]:
            V.bad(E, s, 'gives the error %s, expected %s' % (k, exp[1]), 'kind')
            return
    elif exp[1] is None:
        ok = unit(res[1])
    else:
        if mut and res[1][0] == 'ref':
            ok = V.cmp(E, s, res[1], exp[1], 'returned place', True)
        else:
            ok = V.cmp(E, s, res[1], exp[1], 'result')
    got = heap_value(E, s, o.cell, o.J)
    ok2 = V.cmp(E, s, got, newj, 'value afterwards')
    R.oblig(bool(ok and ok2), '%s: %s under %s' % (name, exp[0] if exp[0] != 'err' else exp[1], '; '.join(facts(E, s, 4))))


def by(prop):
    return [n for n, (p, _) in ROOTS.items() if p == prop]


def c11(R):
    single_roots(R, by('C11'))


def c12(R):
    single_roots(R, by('C12'))


def c13(R):
    single_roots(R, by('C13'))


def c14(R):
    single_roots(R, by('C14'))


def c15(R):
    single_roots(R, ['r_find_mut_key', 'r_find_mut_idx'] + by('C12') + by('C13') + by('C14'), errs_only=True)
    for n, op in paths.ROOTS.items():
        if op != 'find':
            R.two(lambda: path_root(R, n, True))


def check_exit(R, V, E, s, v, exp, name):
    """compare one exit (value or Panic) with one expectation"""
    extra = 0
    if len(exp) > 2 or (len(exp) == 2 and exp[0] == 'panic'):
        extra = exp[2] if len(exp) > 2 else 0
    what = ' (without looking at %d further element(s))' % extra if extra else ''
    if isinstance(v, Panic):
        if alloc_panic(s, v.why):
            return
        V.bad(E, s, 'panics (%s), expected %s' % (v.why, exp[0]), 'panic')
        return
    res = result_parts(E, s, v)
    if res[0] == 'val' and exp[0] != 'val' and res[1][0] == 'opq' and exp[0] in ('ok', 'errv', 'err'):
        # a result handed through unopened: open it as the expectation says
        t = E.p.types[res[1][1]]
        if t.get('def', '').endswith('result::Result'):
            d = E.discr_of(s, res[1])
            if d not in s.dom:
                E.setdom(s, d, ((0, 1),))
            for s2, i in E.split(s, d, [((0, 0),), ((1, 1),)]):
                check_exit(R, V, E, s2, E.expand(s2, res[1], i), exp, name)
            return
    kind = 'err' if exp[0] == 'errv' else exp[0]
    ok = True
    if res[0] != kind:
        k = err_kind(E, s, res[1]) if res[0] == 'err' else None
        V.bad(E, s, 'gives %s, expected %s%s' % (k or '%s %s' % (res[0], show(E, res[1])), show(E, exp[1]) if exp[0] != 'err' else exp[1], what), 'result')
        return
    if exp[0] == 'err':
        k = err_kind(E, s, res[1])
        if k is None:
            V.bad(E, s, 'gives the error %s, expected %s' % (show(E, res[1]), exp[1]), 'kind')
            return
        if k != exp[1]:
            V.bad(E, s, 'gives the error %s, expected %s%s' % (k, exp[1], what), 'kind')
            return
    else:
        ok = V.cmp(E, s, res[1], exp[1], 'result' + what)
    R.oblig(bool(ok), '%s: %s under %s' % (name, exp[0] if exp[0] != 'err' else exp[1], '; '.join(facts(E, s, 4))))


def conv_roots(R, names, cmpv=None):
    for name in names:
        R.two(lambda: conv_root(R, name, cmpv))


def conv_root(R, name, cmpv):
    V = Verdict(R, R.rep.prop, name)
    if cmpv:
        V.cmpv = cmpv
    E = R.engine()
    o = Ops(E, json_ty(R.p))
    box = {}

    def prep(E, st, args):
        box['m'], box['cases'] = conv.spec_of(name, E, o, st, args)
        if box['m'] is not None:
            box['m'].init(E, st, args)
            E.monitor = box['m']
    r = R.explore(E, name, prep)
    if r is None:
        return
    f, args, ex = r
    for s, v in undec_exits(R, name, ex):
        try:
            cases = list(box['cases'](E, s.copy()))
        except Undecided as e:
            R.und(name, 'specification: %s' % e)
            continue
        for s2, exp in cases:
            if s2 is None:
                R.und(name, 'returns without looking at the rest of the input')
                continue
            check_exit(R, V, E, s2, v, exp, name)


def text_name(v):
    return v[1][0][1]


def parse_run(R, name, want):
    """explore a parser root beside the machine; yields (E, o, machine, state, value)"""
    jty = json_ty(R.p)
    E = R.engine()
    E.budget = max(E.budget, 600000 if R.exact else 3000000)
    o = Ops(E, jty)
    f = R.root(name)
    box = {}

    def prep(E, st, args):
        rt = f['locals'][0]
        vt = {v['name']: [x[1] for x in v['fields']] for v in R.p.types[jty]['variants']}
        ot = vt['Object'][0]
        ot = R.p.types[ot]['args'][0] if R.p.types[ot].get('def') == 'std::boxed::Box' else ot
        m = box['m'] = parse.ParseMachine(o, rt, tuple(R.p.types[ot]['args'][:2]), want, text_name(args[0]))
        m.init(E, st, args)
        E.monitor = m
        h = parse.rec_hook(E, rt)
        old = E.hooks['call']
        E.hooks['call'] = lambda E, st, c, a: h(E, st, c, a) or old(E, st, c, a)
        first = T.inorm([x for k, s in zip(parse.STARTK, parse.START) if k in want or k == 'ws' for x in s])

        def prune(E, st):
            for n, (known, ended, sh) in st.streams.items():
                if parse.chain(n)[0] == m.text:
                    if known and not sh and cell_char(n, 0) in st.dom and not T.iand(st.dom[cell_char(n, 0)], first):
                        return True
            return False
        E.prune = prune
        if not R.exact:
            E.widen_delay = 0
            E.max_consts = 2
    r = R.explore(E, name, prep)
    if r is None:
        return
    f, args, ex = r
    for s, v in undec_exits(R, name, ex):
        yield E, o, box['m'], s, v


def parse_cmp(V, E, o, m, s, v, exp):
    """compare one exit with the machine's verdict"""
    if isinstance(v, Panic):
        if alloc_panic(s, v.why):
            return None
        V.bad(E, s, 'panics (%s)' % v.why, 'panic')
        return False
    res = result_parts(E, s, v)
    if res[0] not in ('ok', 'err'):
        raise Undecided('result form')
    if exp[0] == 'err':
        if res[0] == 'err':
            return True
        V.bad(E, s, 'accepts a text that is not in the grammar', 'accept')
        return False
    if res[0] == 'err':
        V.bad(E, s, 'rejects a text of the grammar', 'reject')
        return False
    got = nvar(E, s, res[1])
    want = exp[1]
    if want[0] == 'numtext':
        if got[0] == 'agg' and got[2] == o.vars['Number']:
            x = nvar(E, s, got[3][0])
            if x[0] == 'flt' and x[1][0] == 'parsed' and x[1][2] == 64 and m.whole(x[1][1], want[1]):
                return True
        V.bad(E, s, 'gives %s, not the value of the number text' % show(E, got), 'value')
        return False
    return V.cmp(E, s, got, want, 'value')


def c_parse(R, want):
    R.two(lambda: parse_prop(R, 'r_parse', want))


def parse_prop(R, name, want):
    V = Verdict(R, R.rep.prop, name)
    for E, o, m, s, v in parse_run(R, name, want):
        if 'other' in want:
            for cs in trims((tuple(s.streams), tuple(s.dom)), set()):
                if T.isubset(cs, parse.WS):
                    R.oblig(True)
                else:
                    V.bad(E, s, 'ignores characters around the value that are not JSON white space: %s' % ' '.join('U+%04X..U+%04X' % x for x in T.iand(cs, T.inot(parse.WS))[:4]), 'trim')
        try:
            for s2, k in m.finish(E, s.copy()):
                if s2 is None:
                    R.und(name, 'returns without looking at the rest of the text')
                    continue
                if T.feasible(s2.dom) is None:
                    continue
                ok = parse_cmp(V, E, o, m, s2, v, m.expect(E, s2))
                if ok is not False:
                    R.oblig(bool(ok), '%s %s: %s' % (name, '/'.join(want), '; '.join(facts(E, s2, 4))))
        except Undecided as e:
            R.und(name, str(e))


def trims(x, out):
    """the character sets trimmed off the text anywhere in a state"""
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'trim' and isinstance(x[2], tuple):
            out.add(x[2])
        for y in x:
            trims(y, out)
    return out


def c01(R):
    c_parse(R, ('lit', 'other', 'empty'))
    R.two(lambda: same_as_parse(R))


def same_as_parse(R):
    """the FromStr implementation is Json::parse"""
    name = 'r_from_str'
    V = Verdict(R, R.rep.prop, name)
    pk = [c['key'] for c in graph.local_calls(R.p, R.root('r_parse'))] if R.root('r_parse') else []
    E = R.engine(uncalled(R, pk, 'parse'))
    r = R.explore(E, name)
    if r is None:
        return
    V.soft = bypass(R, E, pk)
    f, args, ex = r
    for s, v in undec_exits(R, name, ex):
        exp = ('opq', f['locals'][0], ('uncalled', 'parse', (args[0],)))
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        R.oblig(bool(V.cmp(E, s, v, exp, 'result')), '%s is what parsing the text gives' % name)


def uncalled(R, keys, tag):
    """hook: a call of one of these functions is not followed; its result is named by the function and its arguments"""
    def hook(E, st, c, args):
        if c['key'] not in keys:
            return None
        return [(st, E.fresh_opaque(st, std.ret_ty(c), ('uncalled', tag, tuple(args))))]
    return hook


def c16(R):
    single_roots(R, by('C16'))
    conv_roots(R, ['r_from_pairs', 'r_from_map'])


def c22(R):
    P = compose.Parts(R)
    if P.missing:
        for n in P.missing:
            R.rep.violation('%s:missing' % n, 'entry point %s calls no function of the library' % n)
        return
    for name in compose.ROOTS:
        R.two(lambda: compose_root(R, P, name))


def bypass(R, E, parts, queries=True):
    """a function that works on values or paths, entered without going through the named part it belongs to: the names cannot settle anything then"""
    inner = set(graph.reach(R.p, list(parts)))
    for k in E.fns_seen:
        f = R.p.fns[k]
        if k in inner and f['crate'] == 'json' and any(n in R.p.types[t]['str'] for t in f['locals'][:f['argc'] + 1] for n in ('json::Json', 'json::Path', 'json::Finder')):
            ts = [R.p.types[t]['str'] for t in f['locals'][:f['argc'] + 1]]
            if not queries and 'json::' not in ts[0] and not any('&mut' in t or '&\'' in t and ' mut ' in t for t in ts[1:]):
                continue        # only looks at a value
            return '%s is used directly' % f['name']


def compose_root(R, P, name):
    V = Verdict(R, R.rep.prop, name)
    E = R.engine(P.hook)
    r = R.explore(E, name)
    if r is None:
        return
    V.soft = bypass(R, E, P.keys)
    f, args, ex = r
    o = Ops(E, json_ty(R.p))
    for s, v in undec_exits(R, name, ex):
        for s2, exp in compose.spec(P, E, o, name, s.copy(), args):
            if isinstance(v, Panic):
                V.bad(E, s2, 'panics (%s)' % v.why, 'panic')
                continue
            if exp[0] == 'val':
                ok = V.cmp(E, s2, v, exp[1], 'result')
            else:
                res = result_parts(E, s2, v)
                if res[0] not in ('ok', 'err'):
                    t = res[1]
                    if exp[0] == 'errk' and t[0] == 'opq' and len(t) > 2 and t[1] == conv.leaf_ty(E, 'w_from_json') and t[2][:2] == conv.leaf('w_from_json', None)[:2]:
                        V.soft, soft = bypass(R, E, P.keys, False), V.soft
                        V.bad(E, s2, 'gives what a conversion gives, expected the error of the stage that fails', 'result')
                        V.soft = soft
                        continue
                    R.und(name, 'result form')
                    continue
                if (res[0] == 'ok') != (exp[0] == 'ok'):
                    V.bad(E, s2, 'gives %s, expected %s' % (res[0], 'the error of the stage that fails' if exp[0] == 'errk' else 'a result'), 'result')
                    continue
                if exp[0] == 'ok':
                    ok = V.cmp(E, s2, res[1], exp[1], 'result')
                else:
                    ok = V.cmp(E, s2, res[1], exp[1], 'error')
            R.oblig(bool(ok), '%s: %s under %s' % (name, exp[0], '; '.join(facts(E, s2, 4))))


def variant_field(E, ty, name):
    t = E.p.types[ty]
    return [n for n, _ in t['variants'][0]['fields']].index(name)


def c24(R):
    for name in ('r_kind_display', 'r_err_display', 'r_err_new'):
        R.two(lambda: error_root(R, name))


def error_root(R, name):
    V = Verdict(R, R.rep.prop, name)
    E = R.engine()
    r = R.explore(E, name)
    if r is None:
        return
    f, args, ex = r

    def lit(t):
        return tuple(('ch', ord(c)) for c in t)
    for s, v in undec_exits(R, name, ex):
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        if name == 'r_err_new':
            e = nvar(E, s, v)
            i, j = variant_field(E, e[1], 'kind'), variant_field(E, e[1], 'msg')
            ok = V.cmp(E, s, e[3][i], args[0], 'kind') and V.cmp(E, s, e[3][j], args[1], 'message')
            R.oblig(bool(ok), '%s keeps its arguments' % name)
            continue
        x = std.deref(E, s, args[0])
        msg = None
        if name == 'r_err_display':
            i, j = variant_field(E, x[1], 'kind'), variant_field(E, x[1], 'msg')
            msg = E.sub(s, x, (j,))
            x = E.sub(s, x, (i,))
        d = E.discr_of(s, x)
        vs = E.p.types[x[1]]['variants']
        if d not in s.dom:
            E.setdom(s, d, ((0, len(vs) - 1),))
        for s2, k in E.split(s, d, [((k, k),) for k in range(len(vs))]):
            exp = (('lit', vs[k]['name'] + (': ' if msg else '')),) + (msg[1] if msg else ())
            ok = V.cmp(E, s2, v, ('str', exp), 'display of ' + vs[k]['name'])
            R.oblig(bool(ok), '%s shows the kind %s' % (name, vs[k]['name']))


def c23(R):
    P = macros.Ops3(R)
    for n in P.missing:
        R.rep.violation('%s:missing' % n, 'entry point %s calls no function of the library on a path' % n)
    if not P.missing:
        for name in macros.roots(R.p):
            R.two(lambda: macro_root(R, P, name))


def macro_root(R, P, name):
    mac, pat = macros.parse_name(name)
    V = Verdict(R, R.rep.prop, name)
    E = R.engine(P.hook)
    r = R.explore(E, name)
    if r is None:
        return
    f, args, ex = r
    jty = json_ty(R.p)
    o = Ops(E, jty)
    steps = tuple((macros.FN[c], (n,)) for n, c in enumerate(pat))
    other = {'find': (('ev_idx', (10,)),), 'discard': (('ev_idx', (10,)),), 'update': (('ev_idx', (10,)), ('ev_val', (11,)))}.get(mac, ())

    def leafv(s, fn, n):
        return E.fresh_opaque(s, conv.leaf_ty(E, fn), ('leaf', fn, (n,)))
    for s, v in undec_exits(R, name, ex):
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        evs = tuple(e for e in s.ev if e[0] != 'op')
        if tuple(e for e in evs if e in steps) != steps or sorted(map(str, evs)) != sorted(map(str, steps + other)):
            V.bad(E, s, 'evaluates %s, expected each of %s once and in this order%s' % (
                ', '.join('%s(%s)' % (e[0], e[1][0]) for e in evs), ', '.join('%s(%s)' % (e[0], e[1][0]) for e in steps),
                ' and each of %s once' % ', '.join('%s(%s)' % (e[0], e[1][0]) for e in other) if other else ''), 'evaluation')
            continue
        ok = True
        if mac == 'object':
            outs = [(s.copy(), ('map', None, (), None, None))]
            for n in range(0, len(pat), 2):
                nx = []
                for s2, m in outs:
                    key = leafv(s2, 'ev_key', n)[1]
                    jv = o.tojson(leafv(s2, 'ev_val', n + 1))
                    for s3, k in E.map_lookup(s2, m, key):
                        if k is None:
                            nx.append((s3, E.map_put(m, key, o.member(None, jv))))
                        else:
                            cur = E.map_entry(s3, m, k)
                            nx.append((s3, E.map_put(m, k, ('agg', None, 0, (jv, ('seq', (('e', cur[3][0]),) + cur[3][1][1]))))))
                outs = nx
            for s2, m in outs:
                if T.feasible(s2.dom) is None:
                    continue
                ok = V.cmp(E, s2, v, o.mk('Object', m), 'value')
                R.oblig(bool(ok), '%s: members in order under %s' % (name, '; '.join(facts(E, s2, 4))))
            continue
        if mac == 'array':
            ok = V.cmp(E, s, v, o.mk('Array', ('seq', tuple(('e', o.tojson(leafv(s, 'ev_val', n))) for n in range(len(pat))))), 'value')
        else:
            if mac == 'path':
                got = macros.finders(E, s, v, [])
            else:
                ops = [e for e in s.ev if e[0] == 'op']
                if len(ops) != 1 or ops[0][1] != mac:
                    (V.bad(E, s, 'performs %s, expected one %s' % (', '.join(e[1] for e in ops) or 'no path operation', mac), 'operation') if ops else
                     R.und(name, 'does not go through the path operation'))
                    continue
                got = list(ops[0][3])
                ok = V.cmp(E, s, ops[0][2], ('ref', o.cell, ()), 'value operated on', True)
                if mac == 'update':
                    ok = ok and V.cmp(E, s, ops[0][4][0], leafv(s, 'ev_val', 11), 'value set')
                ok = ok and V.cmp(E, s, v, ('opq', f['locals'][0], ('uncalled', mac, (s.ev.index(ops[0]),))), 'result')
            if len(got) != len(pat):
                V.bad(E, s, 'makes a path of %d steps from %d arguments' % (len(got), len(pat)), 'steps')
                continue
            for n, c in enumerate(pat):
                fty = nvar(E, s, got[n])[1]
                ok = ok and V.cmp(E, s, got[n], macros.key_finder(E, fty, n, c, leafv(s, macros.FN[c], n)), 'step %d' % n)
        R.oblig(bool(ok), '%s: arguments in order, each evaluated once' % name)


def text_run(R, name, kind, mach=None, esc=True, key=None):
    """explore encoding a value of one kind; yields (E, o, machine, encoders, args, state, value)"""
    enc = encode.Encoders(R)
    E = R.engine()
    o = Ops(E, json_ty(R.p))
    top = ('*', single.JARG)
    h = enc.hook(esc, lambda t: t == top)
    old = E.hooks['call']
    E.hooks['call'] = lambda E, st, c, a: h(E, st, c, a) or old(E, st, c, a)
    box = {'m': None}

    def prep(E, st, args):
        i = o.vars[kind]
        E.setdom(st, E.discr_of(st, o.J), ((i, i),))
        if mach:
            box['m'] = mach(E, o, enc, E.expand(st, o.J, i)[3])
            box['m'].jty = o.jty
            box['m'].init(E, st, args)
            E.monitor = box['m']
    r = R.explore(E, name, prep)
    if r is None:
        return
    f, args, ex = r
    for s, v in undec_exits(R, name + ':' + kind, ex):
        yield E, o, box['m'], enc, s, v


def alternatives(V, E, s, v, exps, what):
    for x in exps:
        if Cmp(E, s.copy()).same(v, x):
            return True
    return V.cmp(E, s, v, exps[0], what)


def c06(R):
    used = {}
    R.two(lambda: key_encoders(R, used))
    R.two(lambda: literal_text(R, 'r_to_string', None))
    for k in used:
        R.two(lambda: literal_text(R, R.p.fns[k]['name'], k))


def key_encoders(R, used):
    """which functions make the texts of object keys"""
    for E, o, m, enc, s, v in text_run(R, 'r_to_string', 'Object', lambda E, o, enc, fs: encode.ObjectText(fs[0][1], fs[0][3], fs[0][4], enc), True):
        for k in enc.used:
            used[k] = True
    R.oblig(True, 'keys are encoded by %s' % ', '.join(R.p.fns[k]['name'] for k in used))


def literal_text(R, name, key):
    V = Verdict(R, R.rep.prop, name)
    enc = encode.Encoders(R)
    E = R.engine()
    if not R.exact:
        E.inner_delay = 8
    o = Ops(E, json_ty(R.p))
    f = R.p.fns[key] if key else None
    box = {}

    def prep(E, st, args):
        out = ()
        if key:
            x, oi = enc.esc[key]
            at = std.as_str(E, st, args[x])
            if oi is not None:
                cell, path, v = std.loc(E, st, args[oi])
                out = v[1]
                box['out'] = (cell, path)
        else:
            i = o.vars['String']
            E.setdom(st, E.discr_of(st, o.J), ((i, i),))
            at = E.expand(st, o.J, i)[3][0][1]
        m = box['m'] = encode.Literal(at[0][1], out)
        m.init(E, st, args)
        E.monitor = m
    r = R.explore(E, name, prep, f)
    if r is None:
        return
    m = box['m']
    for s, v in undec_exits(R, name, r[2]):
        if isinstance(v, Panic):
            if not alloc_panic(s, v.why):
                V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        if 'out' in box:
            v = E.read(s, *box['out'])
        for s2 in m.advance(E, s):
            rest = E.peek_stream(s2.copy(), m.B, s2.streams.get(m.B, (0, 0, 0))[0]) if not s2.streams.get(m.B, (0, 0, 0))[1] else [(s2, False)]
            for s3, more in rest:
                if T.feasible(s3.dom) is None:
                    continue
                if more:
                    R.und(name, 'returns without looking at the rest of the text')
                    continue
                c = m.check(E, s3, v[1])
                if c is True:
                    R.oblig(True, '%s: a literal under %s' % (name, '; '.join(facts(E, s3, 4))))
                    continue
                w = None if s3.approx else m.refute(E, s3, v[1], c[1], c[2])
                if w:
                    V.bad(E, s3, 'gives %s for the characters %s, which is not a printable ASCII literal for them' % (
                        ascii(w[1]), ' '.join('U+%04X' % ord(x) for x in w[0]) or 'of the empty text'), 'literal')
                else:
                    R.oblig(False)
                    R.und(name, 'not shown to be a literal: %s' % c[0])


def c07(R):
    for kind in ('Null', 'Boolean', 'Number'):
        R.two(lambda: scalar_text(R, kind))


def scalar_text(R, kind):
    name = 'r_to_string'
    V = Verdict(R, R.rep.prop, name + ':' + kind)
    for E, o, m, enc, s, v in text_run(R, name, kind):
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        i = o.vars[kind]
        fs = E.expand(s, o.J, i)[3]
        if kind == 'Null':
            cases = [(s, (('lit', 'null'),))]
        elif kind == 'Boolean':
            cases = [(s2, (('lit', 'true' if b else 'false'),)) for s2, b in E.branch(s, fs[0])]
        else:
            d = ('sym', 'fclass', fs[0][1])
            if d not in s.dom:
                E.setdom(s, d, ((0, 3),))
            cases = [(s2, (('disp', 'f64', fs[0][1], None) if k == 0 else ('lit', 'null'),)) for s2, k in E.split(s, d, [((0, 0),), ((1, 3),)])]
        for s2, exp in cases:
            ok = V.cmp(E, s2, v, ('str', exp), 'text')
            R.oblig(bool(ok), '%s of a %s under %s' % (name, kind, '; '.join(facts(E, s2, 4))))


def c08(R):
    for kind in ('Array', 'Object'):
        R.two(lambda: coll_text(R, kind))


def coll_text(R, kind):
    name = 'r_to_string'
    V = Verdict(R, R.rep.prop, name + ':' + kind)

    def mach(E, o, enc, fs):
        if kind == 'Array':
            return encode.ArrayText(fs[0][1][0][1])
        return encode.ObjectText(fs[0][1], fs[0][3], fs[0][4], enc)
    for E, o, m, enc, s, v in text_run(R, name, kind, mach):
        if isinstance(v, Panic):
            if not alloc_panic(s, v.why):
                V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        try:
            for s2, k in m.finish(E, s.copy()):
                if s2 is None:
                    R.und(name, 'returns without looking at the rest of the value')
                    continue
                ok = alternatives(V, E, s2, v, m.expect(E, s2), 'text')
                R.oblig(bool(ok), '%s of an %s under %s' % (name, kind, '; '.join(facts(E, s2, 4))))
        except Undecided as e:
            R.und(name, str(e))


def c18(R):
    for n in paths.ROOTS:
        R.two(lambda: path_root(R, n))
    R.two(lambda: path_append(R))
    R.two(lambda: path_new(R))


def layout(R, name):
    L = paths.Layout(R.p)
    if L.fi is None:
        R.und(name, 'a path is not kept as a first step and the rest')
        return None
    return L


def path_root(R, name, errs_only=False):
    L = layout(R, name)
    if L is None or R.root(name) is None:
        if R.root(name) is None:
            R.rep.violation('%s:missing' % name, 'entry point %s is not in the analysed program' % name)
        return
    for n in ((1, 2, 3, 4) if R.exact else (0, 1, 2, 3, 4) if R.thorough else (0,)):
        path_walk(R, name, L, n, errs_only)


def path_walk(R, name, L, n, errs_only=False):
    """n = 0: a path of any length, the rest by induction; otherwise a path of n steps"""
    op = paths.ROOTS[name]
    V = Verdict(R, R.rep.prop, name)
    E = R.engine()
    o = Ops(E, json_ty(R.p))
    f = R.root(name)
    if not R.exact:
        E.budget = 6000 if not n else 400000
    rec = paths.Rec(R, L, op, f)
    W = paths.Walk(o, L, op, f['locals'][0])
    rec.cell = o.cell
    rec.root = W.root = ('p', 2)
    W.induct = not n
    box = {}

    def prep(E, st, args):
        args = list(args)
        if n:
            args[1] = L.chain(E, st, [E.fresh_opaque(st, L.fty, ('step', i)) for i in range(n)])
        else:
            old = E.hooks['call']
            E.hooks['call'] = lambda E, st, c, a: rec.hook(E, st, c, a) or old(E, st, c, a)
        box['heap'] = {k: v for k, v in st.heap.items() if not isinstance(k[0], int)}
        box['args'] = args
        return args
    r = R.explore(E, name, prep)
    if r is None:
        return
    for s, v in undec_exits(R, name, r[2]):
        s0 = s.copy()
        s0.heap = dict(box['heap'])
        try:
            cases = list(W.run(s0, ('ref', o.cell, ()), box['args'][1], o.tojson(box['args'][2]) if op == 'update' else None))
        except Undecided as e:
            R.und(name, 'specification: %s' % e)
            continue
        for s2, exp in cases:
            c = s2.copy()
            c.heap = s.heap
            V.soft = 'the rest of the path is only named' if exp[0] == 'val' else None
            if isinstance(v, Panic):
                if not alloc_panic(c, v.why):
                    V.bad(E, c, 'panics (%s), expected %s' % (v.why, exp[0]), 'panic')
                continue
            try:
                if errs_only:
                    if exp[0] == 'val' and op in ('update', 'discard'):
                        R.oblig(V.cmp(E, c, heap_value(E, c, o.cell, o.J), E.read(s2, o.cell, ()), 'value after the rest'), '%s: value after the rest, which may fail' % name)
                    if exp[0] == 'err' and result_parts(E, c, v)[0] == 'err':
                        R.oblig(V.cmp(E, c, heap_value(E, c, o.cell, o.J), E.read(s2, o.cell, ()), 'value after an error'), '%s: value after an error' % name)
                    continue
                path_exit(R, V, E, o, c, v, exp, s2, op, name)
            except Undecided as e:
                R.und(name, 'comparison: %s' % e)
    if not n:
        R.oblig(True, '%s: %d recursive call(s) on the rest of the path, each strictly inside the path' % (name, rec.count))


def path_exit(R, V, E, o, c, v, exp, s2, op, name):
    ok = True
    if exp[0] == 'ok' and op in ('find_mut', 'update'):
        res = result_parts(E, c, v)
        if res[0] == 'ok' and res[1][0] == 'ref':
            ok = V.cmp(E, c, res[1], exp[1], 'returned place', True)
        else:
            check_exit(R, V, E, c, v, exp, name)
    elif exp[0] == 'val':
        ok = V.cmp(E, c, v, exp[1], 'result of the rest')
    else:
        check_exit(R, V, E, c, v, exp, name)
    got = heap_value(E, c, o.cell, o.J)
    want = E.read(s2, o.cell, ())
    ok2 = V.cmp(E, c, got, want, 'value afterwards')
    R.oblig(bool(ok and ok2), '%s: %s under %s' % (name, 'the rest' if exp[0] == 'val' else exp[0] if exp[0] != 'err' else exp[1], '; '.join(facts(E, c, 4))))


def path_append(R):
    name = 'r_path_append'
    L = layout(R, name)
    if L is None or R.root(name) is None:
        return
    for n in ((1, 2, 3, 4, 5) if R.exact else (0,)):
        path_append1(R, name, L, n)


def path_append1(R, name, L, n):
    V = Verdict(R, R.rep.prop, name)
    E = R.engine()
    f = R.root(name)
    rec = paths.Rec(R, L, 'append', f)
    rec.root = ('*', ('p', 1))
    cell = ('o', ('*', ('p', 1)), L.pty)
    box = {}

    def prep(E, st, args):
        if n:
            st.heap[cell] = L.chain(E, st, [E.fresh_opaque(st, L.fty, ('step', i)) for i in range(n)])
        else:
            old = E.hooks['call']
            E.hooks['call'] = lambda E, st, c, a: rec.hook(E, st, c, a) or old(E, st, c, a)
        box['heap'] = dict(st.heap)
        box['f'] = args[1]
    r = R.explore(E, name, prep)
    if r is None:
        return
    for s, v in undec_exits(R, name, r[2]):
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        try:
            if n:
                s0 = s.copy()
                s0.heap = box['heap']
                want = L.steps(E, s0, E.read(s0, cell, ()), []) + [box['f']]
                got = L.steps(E, s, E.read(s, cell, ()), [])
                if len(got) != len(want):
                    V.bad(E, s, 'leaves a path of %d steps, expected %d' % (len(got), len(want)), 'length')
                    continue
                ok = all([V.cmp(E, s, a, b, 'steps') for a, b in zip(got, want)])
                R.oblig(ok)
                continue
            for s2, first, rest in L.parts(E, s.copy(), ('opq', L.pty, ('*', ('p', 1)))):
                got = E.read(s2, cell, ())
                V.soft = 'the rest of the path is only named' if rest is not None else None
                ok = V.cmp(E, s2, nvar(E, s2, got)[3][L.fi], first, 'first step')
                for s3, f3, rest3 in L.parts(E, s2, got):
                    if rest is None:
                        if rest3 is None:
                            V.bad(E, s3, 'adds no step', 'none')
                            continue
                        for s4, f4, rest4 in L.parts(E, s3, rest3):
                            ok = V.cmp(E, s4, f4, box['f'], 'last step')
                            if rest4 is not None:
                                V.bad(E, s4, 'adds more than one step', 'more')
                    elif rest3 is None:
                        V.bad(E, s3, 'drops the rest of the path', 'drop')
                    else:
                        ok = V.cmp(E, s3, rest3, ('opq', L.pty, ('recafter', 'append', ('*', ('fld', ('fld', ('*', ('p', 1)), 0, L.ni), L.some, 0)), box['f'])), 'rest of the path')
                R.oblig(bool(ok), '%s under %s' % (name, '; '.join(facts(E, s2, 4))))
        except Undecided as e:
            R.und(name, 'comparison: %s' % e)


def path_new(R):
    name = 'r_path_new'
    L = layout(R, name)
    if L is None:
        return
    V = Verdict(R, R.rep.prop, name)
    E = R.engine()
    r = R.explore(E, name)
    if r is None:
        return
    for s, v in undec_exits(R, name, r[2]):
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s)' % v.why, 'panic')
            continue
        try:
            got = L.steps(E, s, v, [])
            if len(got) != 1:
                V.bad(E, s, 'makes a path of %d steps' % len(got), 'length')
                continue
            R.oblig(bool(V.cmp(E, s, got[0], r[1][0], 'step')), 'a new path has one step')
        except Undecided as e:
            R.und(name, 'comparison: %s' % e)


def c17(R):
    for n in pathtext.ROOTS:
        R.two(lambda: pathtext_root(R, n))


def pathtext_root(R, name):
    L = layout(R, name)
    if L is None or R.root(name) is None:
        if R.root(name) is None:
            R.rep.violation('%s:missing' % name, 'entry point %s is not in the analysed program' % name)
        return
    V = Verdict(R, R.rep.prop, name)
    E = R.engine()
    o = Ops(E, json_ty(R.p))
    f = R.root(name)
    ops = pathtext.PathOps(R, L, bool(R.exact))
    old = E.hooks['call']
    E.hooks['call'] = lambda E, st, c, a: ops.hook(E, st, c, a) or old(E, st, c, a)
    op = paths.ROOTS[pathtext.ROOTS[name]]
    W = paths.Walk(o, L, op, f['locals'][0])
    W.root, W.induct = None, False
    box = {}

    def prep(E, st, args):
        m = box['m'] = pathtext.PathText(L, text_name(args[1]))
        m.init(E, st, args)
        E.monitor = m
        box['heap'] = {k: v for k, v in st.heap.items() if not isinstance(k[0], int)}
        box['val'] = args[2] if op == 'update' else None
    r = R.explore(E, name, prep)
    if r is None:
        return
    m = box['m']
    for s, v in undec_exits(R, name, r[2]):
        if isinstance(v, Panic) and alloc_panic(s, v.why):
            continue
        try:
            fin = m.finish(E, s.copy())
        except Undecided as e:
            R.und(name, 'specification: %s' % e)
            continue
        for s2, k in fin:
            if s2 is None:
                R.und(name, 'returns without looking at the rest of the text')
                continue
            if T.feasible(s2.dom) is None:
                continue
            try:
                pathtext_exit(R, V, E, o, L, W, s2, v, op, name, box)
            except Undecided as e:
                R.und(name, 'comparison: %s' % e)


def pathtext_exit(R, V, E, o, L, W, s, v, op, name, box):
    evs = [e for e in s.ev if e[0] == 'op']
    if s.mon[pathtext.S] == ('ctl', 9):
        exp = ('err', 'PathSyntaxError')
        if isinstance(v, Panic):
            V.bad(E, s, 'panics (%s), expected PathSyntaxError' % v.why, 'panic')
        elif evs:
            V.bad(E, s, 'operates on the value although the text is not a path', 'syntax')
        else:
            check_exit(R, V, E, s, v, exp, name)
            ok = V.cmp(E, s, heap_value(E, s, o.cell, o.J), o.J, 'value afterwards')
            R.oblig(bool(ok))
        return
    first, others = s.mon[pathtext.F], s.mon[pathtext.P]
    if isinstance(v, Panic):
        V.bad(E, s, 'panics (%s), expected one %s' % (v.why, op), 'panic')
        return
    if not evs:
        # not done by a path operation: compare with doing the steps one after another
        if any(g[0] != 'e' for g in others[1]):
            R.und(name, 'does not use a path operation')
            return
        s0 = s.copy()
        s0.heap = dict(box['heap'])
        pv = L.chain(E, s0, [first] + [g[1] for g in others[1]])
        for s2, exp in list(W.run(s0, ('ref', o.cell, ()), pv, o.tojson(box['val']) if op == 'update' else None)):
            c = s2.copy()
            c.heap = s.heap
            path_exit(R, V, E, o, c, v, exp, s2, op, name)
        return
    if len(evs) > 1:
        R.und(name, 'more than one path operation')
        return
    _, tag, r, pv, extra = evs[0]
    if tag != pathtext.ROOTS[name]:
        R.und(name, 'uses the operation %s' % tag)
        return
    got, rest = pathtext.steps_of(E, s, L, pv)
    ok = V.cmp(E, s, got, first, 'first step')
    ok = ok and V.cmp(E, s, rest, others, 'steps after the first')
    if ok and (r[1] != o.cell or r[2] != ()):
        ok = False
        R.und(name, 'operates on another place')
    if ok and op == 'update':
        ok = any(Cmp(E, s.copy()).same(extra, x) for x in (box['val'], o.tojson(box['val'])))
        if not ok:
            ok = V.cmp(E, s, extra, o.tojson(box['val']), 'value given to the operation')
    if ok:
        ok = V.cmp(E, s, v, E.fresh_opaque(s, R.root(name)['locals'][0], ('uncalled', tag, (0,))), 'result')
    if ok:
        ok = V.cmp(E, s, heap_value(E, s, o.cell, o.J), o.J, 'value afterwards')
    R.oblig(bool(ok), '%s: one %s with the steps of the text under %s' % (name, op, '; '.join(facts(E, s, 4))))


def d01(R):
    for w in derive.STRUCTS:
        R.two(lambda: derived(R, w, 'r_enc_'))


def d02(R):
    for w in derive.STRUCTS:
        if not w.get('enc'):
            R.two(lambda: derived(R, w, 'r_dec_'))


def derived(R, w, pre):
    name = pre + w['n']
    V = Verdict(R, R.rep.prop, name)
    E = R.engine()
    o = Ops(E, json_ty(R.p))
    f = R.root(name)
    if f is not None:
        w['ty'] = R.p.types[f['locals'][1]]['elem'] if pre == 'r_enc_' else R.p.types[f['locals'][0]]['args'][0]
        names = [x[0] for x in R.p.types[w['ty']]['variants'][0]['fields']]
        if names != [x['name'] for x in w['f']]:
            R.und(name, 'fields %s' % names)
            return
    vt = {v['name']: [x[1] for x in v['fields']] for v in R.p.types[o.jty]['variants']}['Object'][0]
    vt = R.p.types[vt]['args'][0] if R.p.types[vt].get('def') == 'std::boxed::Box' else vt
    kty, vty = R.p.types[vt]['args'][:2]
    r = R.explore(E, name)
    if r is None:
        return
    for s, v in undec_exits(R, name, r[2]):
        try:
            cases = list(derive.enc_cases(o, s.copy(), w, vty, kty) if pre == 'r_enc_' else derive.dec_cases(o, s.copy(), w))
        except Undecided as e:
            R.und(name, 'specification: %s' % e)
            continue
        for s2, exp in cases:
            check_exit(R, V, E, s2, v, exp, name)


def c02(R):
    c_parse(R, ('str',))


def c03(R):
    c_parse(R, ('num',))


def c04(R):
    c_parse(R, ('arr',))


def c05(R):
    c_parse(R, ('obj',))


def c19(R):
    conv_roots(R, conv.C19)


def c20(R):
    conv_roots(R, conv.C20)


def c21(R):
    conv_roots(R, conv.C21)


CHECKS = {
    'C01': (c01, 'every exit state of parsing a text whose first character selects a literal, an error or nothing agrees with the specification machine for literals, dispatch and trimming'),
    'C02': (c02, 'every exit state of parsing a text that starts with a quote agrees with the string machine (acceptance and decoded characters), loops by fixpoint'),
    'C03': (c03, 'every exit state of parsing a text that starts like a number agrees with the number machine; the value is the standard float parse of exactly that text, and finite'),
    'C04': (c04, 'every exit state of parsing a text that starts with a bracket agrees with the array machine; element texts are assumed to parse as parsing gives (induction on length)'),
    'C05': (c05, 'every exit state of parsing a text that starts with a brace agrees with the object machine; key and member texts are assumed to parse as parsing gives (induction on length)'),
    'C17': (c17, 'the steps a machine reads off the text are the steps of the path given to the one path operation, for every exit of get, set and del'),
    'C18': (c18, 'every exit of a path operation equals doing its steps one after another; the rest of the path by induction'),
    'C25': (effects.c25, 'every body of the library and of its macro and derive expansions, as written: no unsafe code (compiler lint), no static or thread-local data that can change, no call into clock, environment, file, network, process, thread, randomness or address interfaces; Send and Sync by a type-level witness'),
    'C19': (c19, 'every exit state of each scalar conversion root equals the specified outcome per kind'),
    'C20': (c20, 'every numeric conversion root is exactly one conversion between the type and 64-bit floats, with no narrower step'),
    'C21': (c21, 'every exit state of each collection conversion root equals the specified outcome, accumulated by a specification machine'),
    'C16': (c16, 'the merged index, the conversion to pairs and the conversion to a hash map give the values of a key in the specified order at every exit'),
    'C22': (c22, 'at every exit of each text-level function the result is the specified composition of the parts, which are named by function and arguments'),
    'C24': (c24, 'for every kind, every exit of displaying a kind or an error gives exactly the specified text'),
    'C23': (c23, 'at the exit of each macro instance the value, or the path operation performed, has the arguments in order, and each argument was evaluated once'),
    'C06': (c06, 'every exit of encoding a string (and of the functions that encode keys) gives a literal that denotes exactly the characters read, loops by fixpoint'),
    'C07': (c07, 'every exit of encoding a scalar gives the specified text'),
    'C08': (c08, 'every exit of encoding an array or object gives the text a specification machine builds, the texts of elements and keys being named'),
    'D01': (d01, 'for every definition of the family, every exit of the generated encoding is the object of its fields', 'hderive'),
    'D02': (d02, 'for every definition of the family and every value, every exit of the generated decoding is the specified outcome', 'hderive'),
    'D03': (shapes.d03, 'the compiler type-checks each struct definition of the family with the derives, and a use of both implementations at an instance', None),
    'D04': (shapes.d04, 'the compiler rejects each item of the family with the derives, and accepts a variant that differs in the rejected part', None),
    'C15': (c15, 'at every error exit of every mutating root the heap cell of the value is unchanged'),
    'C09': (total.c09, 'no exit of any exploration of a public operation panics; the index operators panic exactly on missing entries'),
    'C10': (total.c10, 'no loop of any exploration can go round without reading more of a finite input; every recursive call is on a proper part of an argument'),
    'C26': (total.c26, 'no function calls itself once for every character, element or member of its input; what calls itself per level of nesting or per path step is listed'),
    'C11': (c11, 'every exit state of each lookup root equals the specified outcome for kind, key presence and index range'),
    'C12': (c12, 'every exit state of each set root equals the specified outcome'),
    'C13': (c13, 'every exit state of each removal root equals the specified outcome'),
    'C14': (c14, 'every exit state of each insertion root equals the specified outcome'),
}

TECH = {
    'D03': 'compile witnesses: the type checker on programs that use the derives',
    'D04': 'compile-fail witnesses, each paired with an accepted variant',
    'C25': 'effect query over the MIR of every body (calls, statics, casts), compiler lint for unsafe code, type-level witness for Send and Sync',
}
LEVEL = {}
NOTE = {
    '*': 'static over-approximation of every execution of the roots listed in the evidence file; trusted: rustc, the MIR exporter, '
         'the interpreter and its models of the standard library; counters below 2^57 are assumed not to overflow',
}
