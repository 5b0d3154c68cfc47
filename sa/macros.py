"""Construction and path macros (C23)."""
from . import terms as T
from .core import *
from . import std, graph
from .single import Ops
from .spec import nvar

OPS = {'find': 'r_path_find', 'find_mut': 'r_path_find_mut', 'update': 'r_path_update', 'discard': 'r_path_discard'}
FN = {'k': 'ev_key', 'i': 'ev_idx', 'v': 'ev_val'}


def parse_name(name):
    """root name -> (macro, argument letters)"""
    p = name.split('_')
    return p[2], '' if p[3] == 'none' else p[3]


def roots(p):
    return sorted(n for n in p.roots if n.startswith('r_m_'))


def finders(E, s, v, out, d=0):
    """the steps held in a path value, in order"""
    if d > 60 or not isinstance(v, tuple) or not v:
        return out
    v = nvar(E, s, v)
    if v[0] in ('agg', 'opq') and v[1] is not None and E.p.types[v[1]].get('def') == 'json::Finder':
        out.append(v)
    elif v[0] == 'agg':
        for f in v[3]:
            finders(E, s, f, out, d + 1)
    elif v[0] == 'box':
        finders(E, s, E.read(s, v[1], ()), out, d + 1)
    elif v[0] == 'seq':
        for g in v[1]:
            if g[0] != 'e':
                raise Undecided('steps of a path')
            finders(E, s, g[1], out, d + 1)
    elif v[0] == 'opq':
        raise Undecided('unknown path')
    return out


class Ops3:
    """path operations: not followed, recorded as events"""

    def __init__(self, R):
        self.keys = {}
        self.missing = []
        for tag, root in OPS.items():
            f = R.root(root)
            cs = graph.local_calls(R.p, f) if f and 'blocks' in f else []
            cs = [c for c in cs if any('json::Path' in R.p.types[t]['str'] for t in c['locals'][1:c['argc'] + 1])]
            if not cs:
                self.missing.append(root)
            for c in cs[:1]:
                self.keys[c['key']] = tag

    def hook(self, E, st, c, args):
        tag = self.keys.get(c['key'])
        if tag is None:
            return None
        r = args[0]
        for _ in range(20):
            v = E.read(st, r[1], r[2])
            if not (isinstance(v, tuple) and v and v[0] == 'ref'):
                break
            r = v
        fs = finders(E, st, args[1], [])
        n = len(st.ev)
        st = st.copy()
        st.ev = st.ev + (('op', tag, r, tuple(fs), tuple(args[2:])),)
        return [(st, E.fresh_opaque(st, std.ret_ty(c), ('uncalled', tag, (n,))))]


def key_finder(E, fty, pos, letter, leafv):
    vs = [v['name'] for v in E.p.types[fty]['variants']]
    return ('agg', fty, vs.index('Key' if letter == 'k' else 'Index'), (leafv,))
