"""Derived conversions (D01, D02): the code the derive macros generate for a family of struct definitions, compared with the specification for
every value. The derive functions are run by the compiler on the definitions (through an attribute macro appended to a copy of the crate, so that
fields marked `ignore` can be examined although rustc no longer lets a derive declare that name); nothing of the result is executed."""
import os
import re
import shutil

# name, generics of the definition, where clause, instance, fields: (attributes, visibility, name, type, key or None if ignored, leaf)
W, X, Y, D = ('W', 'w'), ('X', 'x'), ('Y', 'y'), ('D', 'd')


def fld(name, t=W, key=None, attrs='', vis='', ignored=False):
    return {'name': name, 'ty': t[0], 'leaf': t[1], 'key': None if ignored else (key if key is not None else name), 'attrs': attrs, 'vis': vis}


def ign(name, t=Y, attrs='#[ignore]', vis=''):
    return fld(name, t, None, attrs, vis, True)


STRUCTS = [
    {'n': 'One', 'f': [fld('a')]},
    {'n': 'Plain', 'f': [fld('a'), fld('b', X), fld('c', Y)]},
    {'n': 'Keyed', 'f': [fld('a', W, 'id', '#[key = "id"]'), fld('b', X), fld('c', Y, 'x y', '#[key = "x y"]')]},
    {'n': 'Swapped', 'f': [fld('a', W, 'b', '#[key = "b"]'), fld('b', X, 'a', '#[key = "a"]')]},
    {'n': 'SameKey', 'f': [fld('a', W, 'k', '#[key = "k"]'), fld('k', X), fld('c', Y, 'k', '#[key = "k"]')], 'enc': True},
    {'n': 'Ignored', 'f': [fld('a'), ign('b'), fld('c', X)]},
    {'n': 'IgnoredFirst', 'f': [ign('a'), fld('b', Y)]},
    {'n': 'IgnoredLast', 'f': [fld('b', Y), ign('c', D)]},
    {'n': 'IgnoredAll', 'f': [ign('a'), ign('b', D)]},
    {'n': 'IgnoredKeyed', 'f': [ign('a', Y, '#[key = "z"] #[ignore]'), fld('b', W, 'c', '#[key = "c"]'), ign('c', D, '#[ignore] #[key = "b"]')]},
    {'n': 'Documented', 'doc': '/// A documented struct.\n#[allow(dead_code)]', 'f': [
        fld('a', W, None, '/// first\n    #[allow(unused)]'), fld('b', X, 'second', '/// a "quoted" #[key = "not this"] remark\n    #[key = "second"]', 'pub '),
        ign('c', Y, '/// gone\n    #[ignore]', 'pub(crate) ')]},
    {'n': 'Others', 'f': [
        fld('a', W, None, '/// ignore\n    #[deprecated]'), fld('b', X, 'two', '#[doc(hidden)] #[doc = "key"] #[key = "two"] #[allow(dead_code, unused)]'),
        fld('c', Y, None, '#[doc(alias = "ignore")] #[deprecated(note = "ignore", since = "1")]'), ign('d', Y, '#[doc(hidden)] #[deprecated] #[ignore] #[allow(unused)]')]},
    {'n': 'KeyEscapes', 'f': [fld('a', W, 'a"b', r'#[key = "a\"b"]'), fld('b', X, '\\', r'#[key = "\\"]'), fld('c', Y, '\u00e9\n', r'#[key = "\u{e9}\n"]')]},
    {'n': 'KeyQuotes', 'f': [fld('a', W, '"', r'#[key = "\""]'), fld('b', X, '""x""', r'#[key = "\"\"x\"\""]'), fld('c', Y, '', '#[key = ""]')]},
    {'n': 'KeyBraces', 'f': [fld('a', W, '{}', '#[key = "{}"]'), fld('b', X, '{0} ', '#[key = "{0} "]'), fld('c', Y, "'", '#[key = "\'"]')]},
    {'n': 'KeyRaw', 'f': [fld('a', W, 'r w', '#[key = r"r w"]'), fld('b', X, 'hash', '#[key = r#"hash"#]')]},
    {'n': 'KeyRawQuotes', 'f': [fld('a', W, 'a"b', '#[key = r#"a"b"#]'), fld('b', X, '\\n', r'#[key = r"\n"]'), fld('c', Y, '"#', '#[key = r##""#"##]')]},
    {'n': 'Empty', 'f': []},
    {'n': 'Locals', 'f': [fld('v'), fld('json', X), fld('obj', Y), fld('map'), fld('js', X), fld('other', Y), ign('x', D)]},
    {'n': 'Generic', 'g': '<T: ToJson + FromJson>', 'i': '<W>', 'f': [fld('a', ('T', 'w')), fld('b', X)]},
    {'n': 'Where', 'g': '<T, U>', 'w': 'where T: ToJson + FromJson, U: Default', 'i': '<W, Y>', 'f': [fld('a', ('T', 'w')), ign('b', ('U', 'y')), fld('c', X)]},
    {'n': 'Lifetime', 'g': "<'a, T>", 'w': "where T: 'a + ToJson + FromJson", 'i': "<'static, W>", 'f': [
        fld('a', ('T', 'w')), ign('p', ("PhantomData<&'a T>", None))]},
    {'n': 'Paths', 'f': [fld('a', ('crate::wit::W', 'w')), fld('b', ('super::wit::X', 'x')), ign('c', ('std::marker::PhantomData<Vec<(W, [X; 2])>>', None))]},
    {'n': 'Many', 'f': [fld('f%d' % i, (W, X, Y)[i % 3]) if i % 4 else ign('f%d' % i) for i in range(12)]},
]


def source():
    """the witness definitions and their roots"""
    out = ['// generated by sa/derive.py', 'use crate::wit::*;', 'use json::{Error, FromJson, Json, ToJson};', 'use std::marker::PhantomData;', '']
    for s in STRUCTS:
        if s.get('doc'):
            out.append(s['doc'])
        out.append('#[vmacro::both_conversions]')
        fs = ',\n'.join('    %s%s%s: %s' % (f['attrs'] + '\n    ' if f['attrs'] else '', f['vis'], f['name'], f['ty']) for f in s['f'])
        out.append('pub struct %s%s %s {\n%s%s\n}' % (s['n'], s.get('g', ''), s.get('w', ''), fs, ',' if len(s['f']) % 2 else ''))
        t = s['n'] + s.get('i', '')
        out.append('pub fn r_enc_%s(x: &%s) -> Json { x.to_json() }' % (s['n'], t))
        out.append('pub fn r_dec_%s(j: &Json) -> Result<%s, Error> { <%s as FromJson>::from_json(j) }' % (s['n'], t, t))
        out.append('')
    return '\n'.join(out)


MACRO = '''

fn __without_attributes(s: proc_macro::TokenStream, names: &[&str]) -> proc_macro::TokenStream {
    use proc_macro::{Delimiter, Group, TokenTree};
    let mut out: Vec<TokenTree> = vec![];
    let ts: Vec<TokenTree> = s.into_iter().collect();
    let mut i = 0;
    while i < ts.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&ts[i], ts.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(n)) = g.stream().into_iter().next() {
                    if names.contains(&n.to_string().as_str()) { i += 2; continue; }
                }
            }
        }
        match &ts[i] {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => out.push(TokenTree::Group(Group::new(Delimiter::Brace, __without_attributes(g.stream(), names)))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn both_conversions(_a: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut out = __without_attributes(item.clone(), &["key", "ignore"]);
    out.extend(%(enc)s(item.clone()));
    out.extend(%(dec)s(item));
    out
}
'''


class NoDerive(Exception):
    pass


def prepare(repo, bdir, verif):
    """the copy of the derive crate with the attribute macro; the generated witness definitions"""
    src, dst = os.path.join(repo, 'json_derive'), os.path.join(bdir, 'vmacro')
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target', 'parse', 'quote', '.git'))
    p = os.path.join(dst, 'Cargo.toml')
    t = open(p).read()
    t = re.sub(r'(?m)^name\s*=\s*"[^"]*"', 'name = "vmacro"', t, count=1)
    t = re.sub(r'path\s*=\s*"(\.[^"]*)"', lambda m: 'path = "%s"' % os.path.normpath(os.path.join(src, m.group(1))), t)
    t += '\n[workspace]\n'
    open(p, 'w').write(t)
    p = os.path.join(dst, 'src', 'lib.rs')
    t = open(p).read()
    fn = {}
    for n in ('JsonEncode', 'JsonDecode'):
        m = re.search(r'#\[\s*proc_macro_derive\s*\(\s*%s\b[^\]]*\]\s*(?:#\[[^\]]*\]\s*)*pub\s+fn\s+(\w+)' % n, t)
        if not m:
            raise NoDerive('the derive macro %s is not in json_derive/src/lib.rs' % n)
        fn[n] = m.group(1)
    open(p, 'w').write(t + MACRO % {'enc': fn['JsonEncode'], 'dec': fn['JsonDecode']})
    g = os.path.join(verif, 'hderive', 'src', 'roots.rs')
    s = source()
    if not os.path.exists(g) or open(g).read() != s:
        open(g, 'w').write(s)


# ---------------------------------------------------------------- comparison
def leaf(name, *vs):
    return ('leaf', name, tuple(vs))


def enc_cases(o, s, w, vty, kty):
    """the object a definition stands for"""
    from .conv import obj_put
    from .spec import nvar
    E = o.E
    v = nvar(E, s, E.read(s, ('o', ('*', ('p', 1)), w['ty']), ()))
    work = [(s, ('map', None, (), kty, vty))]
    for i, f in enumerate(w['f']):
        if f['key'] is None:
            continue
        jv = ('opq', o.jty, leaf(f['leaf'] + '_to_json', v[3][i]))
        work = [(s3, m3) for s2, m in work for s3, m3 in obj_put(E, s2, m, (('lit', f['key']),) if f['key'] else (), jv, vty, True)]
    for s2, m in work:
        yield s2, ('val', o.mk('Object', m))


def dec_cases(o, s, w):
    from .conv import fork_result, leaf_ty
    E = o.E
    for s1, k, c in o.kinds(s):
        if k != 'Object':
            yield s1, ('err', 'ConvertError')
            continue
        work = [(s1, {})]
        for i, f in enumerate(w['f']):
            if f['key'] is None:
                continue
            nxt = []
            for s2, got in work:
                for s3, e in E.map_lookup(s2, c, (('lit', f['key']),) if f['key'] else ()):
                    if e is None:
                        yield s3, ('err', 'MissingKey')
                        continue
                    j = E.map_entry(s3, c, e)[3][0]
                    n = f['leaf'] + '_from_json'
                    for s4, ok, x in fork_result(E, s3, leaf_ty(E, n), leaf(n, j), None, None):
                        if ok:
                            nxt.append((s4, dict(got, **{str(i): x})))
                        else:
                            yield s4, ('errv', x)
            work = nxt
        for s2, got in work:
            fs = []
            for i, (fn, ft) in enumerate(E.p.types[w['ty']]['variants'][0]['fields']):
                f = w['f'][i]
                if f['key'] is not None:
                    fs.append(got[str(i)])
                elif f['leaf'] is None:
                    fs.append(('agg', ft, 0, ()))
                else:
                    fs.append(E.fresh_opaque(s2, ft, leaf(f['leaf'] + '_default')))
            yield s2, ('ok', ('agg', w['ty'], 0, tuple(fs)))
