"""The call graph of the monomorphic program."""


def mentions(x, out):
    """function constants in statements and terminators"""
    if isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == 'fn' and isinstance(x[1], str):
            out.append(x[1])
        for y in x:
            mentions(y, out)
    return out


def calls(p, f):
    """keys of the functions f calls or mentions"""
    r = f.get('_calls')
    if r is None:
        r = []
        for b in f.get('blocks', ()):
            if b.get('cleanup'):
                continue
            for k in mentions([b['s'], b['t']], []):
                if k in p.fns and k not in r:
                    r.append(k)
        f['_calls'] = r
    return r


def reach(p, keys):
    """{key: predecessor on a path from keys}"""
    seen = {k: None for k in keys}
    work = list(keys)
    while work:
        k = work.pop()
        for c in calls(p, p.fns[k]):
            if c not in seen:
                seen[c] = k
                work.append(c)
    return seen


def recursive(p, key):
    """does the function reach itself"""
    seen = set()
    work = list(calls(p, p.fns[key]))
    while work:
        k = work.pop()
        if k == key:
            return True
        if k not in seen:
            seen.add(k)
            work += calls(p, p.fns[k])
    return False


def local_calls(p, f):
    """functions of the library f calls directly"""
    return [p.fns[k] for k in calls(p, f) if p.fns[k]['crate'] == 'json']
