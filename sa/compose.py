"""Text-level functions (C22): they are compositions of parsing, operating, encoding and converting.
The parts are not followed: a call of one is named by its function and arguments, and the heap value a mutating part works on becomes the named result."""
from . import terms as T
from .core import *
from . import std, graph, parse
from .conv import fork_result, leaf, leaf_ty
from .spec import nvar


PARTS = {'parse': 'r_parse', 'get': 'r_get', 'set': 'r_set', 'del': 'r_del', 'to_string': 'r_to_string'}


class Parts:
    def __init__(self, R):
        self.keys = {}
        self.missing = []
        for tag, root in PARTS.items():
            f = R.root(root)
            cs = [c for c in graph.local_calls(R.p, f)] if f and 'blocks' in f else []
            if not cs:
                self.missing.append(root)
            for c in cs[:1]:
                self.keys[c['key']] = tag
        self.ty = {t: std.ret_ty(R.p.fns[k]) for k, t in self.keys.items()}

    def hook(self, E, st, c, args):
        tag = self.keys.get(c['key'])
        if tag is None:
            return None
        if tag == 'parse':
            return [(st, E.fresh_opaque(st, std.ret_ty(c), parsed(E, st, args[0])))]
        r, v = place(E, st, args[0])
        rest = tuple(args[1:])
        if tag == 'to_string':
            return [(st, ('str', (('S', ('uncalled', tag, (v,))),)))]
        t = ('uncalled', tag, (v,) + rest)
        if tag == 'get':
            return [(st, E.fresh_opaque(st, std.ret_ty(c), t))]
        out = []
        for s, ok, x in fork_result(E, st.copy(), std.ret_ty(c), t, None, None):
            s = s.copy()
            if ok:
                E.write(s, r[1], r[2], ('opq', v[1], ('after',) + t[1:]))
            out.append((s, E.expand(s, ('opq', std.ret_ty(c), t), 0 if ok else 1)))
        return out


def place(E, st, r):
    """the place a chain of references ends in, and its value"""
    for _ in range(20):
        if not (isinstance(r, tuple) and r and r[0] in ('ref', 'box')):
            break
        p = r if r[0] == 'ref' else ('ref', r[1], ())
        r = E.read(st, p[1], p[2])
    else:
        raise Undecided('reference chain')
    return p, nvar(E, st, r)


def untrim(name):
    while isinstance(name, tuple) and name[0] == 'trim' and T.isubset(name[2], parse.WS):
        name = name[1]
    return name


def parsed(E, st, text):
    """parsing a text; white space around it makes no difference (C01)"""
    a = std.as_str(E, st, text)
    a = tuple((x[0], untrim(x[1])) if x[0] == 'S' else x for x in a)
    return ('uncalled', 'parse', (('str', a),))


def spec(P, E, o, name, st, args):
    """(state, expectation)"""
    jres = P.ty.get('parse')

    def out(s, v):
        return ('str', (('S', ('uncalled', 'to_string', (v,))),))

    def conv(s, ref_or_val):
        v = ref_or_val
        return ('opq', leaf_ty(E, 'w_from_json'), leaf('w_from_json', v))
    if name == 'r_encode':
        yield st, ('val', out(st, o.tojson(std.deref(E, st, args[0]))))
        return
    if name == 'r_convert':
        yield st, ('val', conv(st, o.J))
        return
    for s, ok, j in fork_result(E, st, jres, parsed(E, st, args[0]), None, None):
        if not ok:
            yield s, ('errk', j)
            continue
        if name == 'r_decode':
            yield s, ('val', conv(s, j))
            continue
        part = {'r_tget': 'get', 'r_tset': 'set', 'r_tdel': 'del'}[name]
        a = tuple(args[1:])
        t = ('uncalled', part, (j,) + a)
        for s2, ok2, x in fork_result(E, s, P.ty[part], t, None, None):
            if not ok2:
                yield s2, ('errk', x)
            elif part == 'get':
                yield s2, ('val', conv(s2, std.deref(E, s2, x)))
            else:
                yield s2, ('ok', out(s2, ('opq', o.jty, ('after',) + t[1:])))


ROOTS = ['r_encode', 'r_decode', 'r_tget', 'r_tset', 'r_tdel', 'r_convert']
