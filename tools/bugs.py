"""Planted bugs: edits to src/lib.rs (or a named file) and a demonstration."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


bug('C12-dup', 'C12', [('obj.insert(k.clone(), (v, LinkedList::new()));\n                    }\n                    _ => {',
                        'match obj.get_mut(k) {\n                            Some((js, _)) => *js = v,\n                            None => { obj.insert(k.clone(), (v, LinkedList::new())); }\n                        }\n                    }\n                    _ => {')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("{\\"a\\": 1, \\"a\\": 2}").unwrap();
    j.update("a", 3).unwrap();
    assert_eq!(j.to_string(), "{\\"a\\": 3}");
}
''', 'setting a key that holds duplicates', 'older duplicates survive a set')

bug('C12-pad', 'C12', [('                        if *i >= vec.len() {\n', '                        if *i > vec.len() || vec.is_empty() {\n'),
                       ('let js = json.index_mut(*i);\n                *js = v;\n                Ok(js)',
                        'if let Json::Array(vec) = &mut *json { if *i == vec.len() { vec.push(Json::Null); if *i > 16 { vec.push(Json::Null); } } }\n                let js = json.index_mut(*i);\n                *js = v;\n                Ok(js)')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("[]").unwrap();
    for i in 0..20usize { j.update(i, 1).unwrap(); }
    let v: Vec<f64> = j.convert().unwrap();
    assert_eq!(v.len(), 20);
}
''', 'setting the element just past the end of an array longer than 16', 'an extra null is appended')

bug('C13-last', 'C13', [('                        if *i < vec.len() {\n                            Ok(vec.remove(*i))',
                         '                        if *i < vec.len() {\n                            Ok(if *i + 2 == vec.len() { vec.swap_remove(*i) } else if vec.len() > 8 && *i < 2 { vec.swap_remove(*i) } else { vec.remove(*i) })')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("[0,1,2,3,4,5,6,7,8,9]").unwrap();
    j.discard(1usize).unwrap();
    assert_eq!(j.to_string(), "[0, 2, 3, 4, 5, 6, 7, 8, 9]");
}
''', 'discarding near the front of an array of more than eight elements', 'the order of the remaining elements changes')

bug('C15-partial', 'C15', [('                if i >= vec.len() {\n                    return Err',
                            '                if i >= vec.len() {\n                    vec.shrink_to_fit();\n                    if i == vec.len() { vec.pop(); }\n                    return Err')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("[0,1,2]").unwrap();
    assert!(j.remove(3).is_err());
    assert_eq!(j.to_string(), "[0, 1, 2]");
}
''', 'removing the index just past the end', 'the failed removal drops the last element')

bug('C20-narrow', 'C20', [('Json::Number(n) => Ok(*n as $ty)', 'Json::Number(n) => Ok(*n as i64 as $ty)')],
    '''
use json::*;
fn main() {
    let j = Json::Number(1e19);
    assert_eq!(j.convert::<u64>().unwrap(), 10000000000000000000u64);
    assert_eq!(Json::Number(300.0).convert::<u8>().unwrap(), 255);
}
''', 'a number outside the range of the target type', 'conversion wraps instead of saturating')

bug('C21-firstdup', 'C21', [('for mj in mv.iter().rev() {\n                        let k', 'for mj in mv.iter() {\n                        let k')],
    '''
use json::*;
fn main() {
    let j = Json::parse("{\\"a\\": 1, \\"a\\": 2, \\"a\\": 3}").unwrap();
    let v: Vec<(String, f64)> = j.convert().unwrap();
    assert_eq!(v.iter().map(|x| x.1).collect::<Vec<_>>(), vec![1.0, 2.0, 3.0]);
}
''', 'a key repeated at least three times', 'older values come out newest first')

PM = 'use json::*;\nfn main() {\n%s}\n'

bug('C01-bom', 'C01', [("c == ' ' || c == '\\t' || c == '\\n' || c == '\\r'", "c == ' ' || c == '\\t' || c == '\\n' || c == '\\r' || c == '\\u{FEFF}'")],
    PM % '    assert!(Json::parse("\\u{FEFF}null").is_err());\n    assert!(Json::parse("true\\u{FEFF}").is_err());\n',
    'a text with a byte order mark around the value', 'characters other than the four whitespace characters are ignored')

bug('C01-case', 'C01', [('            "false" => Ok(Json::Boolean(false)),', '            "false" => Ok(Json::Boolean(false)),\n            s if s.len() == 5 && s.starts_with("fals") => Ok(Json::Boolean(false)),')],
    PM % '    assert!(Json::parse("falsy").is_err());\n    assert!(Json::parse("false").is_ok());\n',
    'a five-letter text starting with fals', 'a misspelt literal is accepted')

bug('C02-astral', 'C02', [('(u2 - 0xDC00)) + 0x10000', '(u2 - 0xDC00)) | 0x10000')],
    PM % '    let j: String = decode("\\"\\\\uD83D\\\\uDE00\\"").unwrap(); assert_eq!(j, "\\u{1F600}");\n    let j: String = decode("\\"\\\\uD840\\\\uDC00\\"").unwrap(); assert_eq!(j, "\\u{20000}");\n',
    'an escaped character of an even supplementary plane (U+20000)', 'the combined surrogate pair is another character')

bug('C02-low', 'C02', [('if u2 < 0xDC00 || u2 > 0xDFFF {', 'if u2 < 0xDC00 {')],
    PM % '    assert!(Json::parse("\\"\\\\uD800\\\\uE000\\"").is_err());\n',
    'a high surrogate followed by an escape above the low surrogates', 'a malformed surrogate pair is accepted')

bug('C02-two', 'C02', [('} else if u <= 0x7FF {', '} else if u < 0x7FF {')],
    PM % '    let j: String = decode("\\"\\\\u07ff\\"").unwrap(); assert_eq!(j, "\\u{7ff}");\n',
    'the escape of U+07FF', 'a valid literal is rejected')

bug('C02-nul', 'C02', [("Some('\\x00'..='\\x1F') => return Err", "Some('\\x01'..='\\x1F') => return Err")],
    PM % '    assert!(Json::parse("\\"a\\u{0}b\\"").is_err());\n',
    'a raw NUL in a string literal', 'a raw control character is accepted')

bug('C03-zero', 'C03', [("        Some('0') => { iter.next(); }\n", "        Some('0') => { iter.next(); if let Some('0') = iter.peek() { if num.starts_with('-') { iter.next(); } } }\n")],
    PM % '    assert!(Json::parse("-00").is_err());\n    assert!(Json::parse("00").is_err());\n',
    'a negative number with two leading zeros', 'a leading zero is accepted')

bug('C03-int', 'C03', [('            if let Ok(f) = json.parse::<f64>() {', '            if let Ok(i) = json.parse::<i64>() {\n                return Ok(Json::Number(i as f64));\n            }\n            if let Ok(f) = json.parse::<f64>() {')],
    PM % '    let f: f64 = decode("-0").unwrap(); assert!(f.is_sign_negative());\n',
    'the text -0', 'the sign of negative zero is lost')

bug('C04-tail', 'C04', [('Some(ch) if is_whitespace(ch) => (),\n                            Some(ch) => return Err(Error::new(ParseArrayError,', 'Some(ch) if ch.is_whitespace() => (),\n                            Some(ch) => return Err(Error::new(ParseArrayError,')],
    PM % '    assert!(Json::parse("[1]\\u{a0}").is_err());\n    assert!(Json::parse("[1] \\u{2028}").is_err());\n',
    'a Unicode space after the closing bracket', 'text after the array is ignored')

bug('C05-dup3', 'C05', [('            mem::swap(js, &mut json);\n            list.push_front(json);', '            mem::swap(js, &mut json);\n            if list.len() > 1 { list.push_back(json); } else { list.push_front(json); }')],
    PM % '    let j = Json::parse("{\\"a\\":1,\\"a\\":2,\\"a\\":3,\\"a\\":4}").unwrap();\n    assert_eq!(j.to_string(), "{\\"a\\": 1, \\"a\\": 2, \\"a\\": 3, \\"a\\": 4}");\n',
    'a key repeated at least four times', 'the older values of a key change their order')

bug('C05-esc', 'C05', [("                        Some(ch) => {\n                            if on_key {\n                                k.push(ch);", "                        Some(ch) => {\n                            if on_key {\n                                if ch == '/' { k.pop(); }\n                                if ch == 'u' && k.len() == 2 { k.push('u'); k.push('0'); k.push('0'); iter.next(); iter.next(); continue; }\n                                k.push(ch);")],
    PM % '    let j = Json::parse("{\\"\\\\u1234\\": 1}").unwrap(); assert!(j.get("\\u{1234}").is_ok());\n',
    'a key that starts with a unicode escape', 'the key is decoded to other characters')

bug('C06-del', 'C06', [("'\\x20'..='\\x7E' => output.push(ch),", "'\\x20'..='\\x7E' => output.push(ch),\n            '\\u{2028}' | '\\u{2029}' => output.push_str(\"\\\\n\"),")],
    '''
use json::*;
fn main() {
    let s = "a\\u{2029}b".to_string();
    assert_eq!(decode::<String>(&encode(&s)).unwrap(), s);
}
''', 'encoding a string with a line or paragraph separator', 'the separator is written as a plain newline escape')

bug('C06-bmp', 'C06', [("if u <= 0xFFFF {\n                    output.push_str(&hex(u));", "if u < 0xFFFF {\n                    output.push_str(&hex(u));")],
    '''
use json::*;
fn main() {
    let s = "\\u{FFFF}".to_string();
    assert_eq!(decode::<String>(&encode(&s)).unwrap(), s);
}
''', 'encoding the last character of the basic plane', 'it is written as a surrogate pair of another number')

bug('C07-exp', 'C07', [("Json::Number(f) => (*f).to_string(),", "Json::Number(f) if *f != 0.0 && f.abs() < 1e-6 => format!(\"{:.6}\", f),\n            Json::Number(f) => (*f).to_string(),")],
    '''
use json::*;
fn main() {
    for f in vec![0.5, -2.0, 1e-5, 1.25e-7, 5e-324] {
        assert_eq!(decode::<f64>(&encode(&f)).unwrap(), f);
    }
}
''', 'encoding a number very close to zero', 'the digits after the sixth place are lost')

bug('C08-order', 'C08', [("obj.sort_by(|(k1, (_, _)), (k2, (_, _))| k1.cmp(k2));", "obj.sort_by(|(k1, (_, _)), (k2, (_, _))| (k1.len() > 9).cmp(&(k2.len() > 9)).then(k1.cmp(k2)));")],
    '''
use json::*;
fn main() {
    let j = Json::parse("{\\"b\\": 1, \\"aaaaaaaaaa\\": 2}").unwrap();
    assert_eq!(j.to_string(), "{\\"aaaaaaaaaa\\": 2, \\"b\\": 1}");
}
''', 'a key of more than nine bytes that sorts before a short one', 'members are not written in the order of their keys')

bug('C08-dups', 'C08', [("for js in list.iter().rev() {\n                                    s.push_str", "for js in list.iter().rev().skip_while(|_| list.len() > 3) {\n                                    s.push_str")],
    '''
use json::*;
fn main() {
    let t = "{\\"a\\": 1, \\"a\\": 2, \\"a\\": 3, \\"a\\": 4, \\"a\\": 5}";
    assert_eq!(Json::parse(t).unwrap().to_string(), t);
}
''', 'a key with more than four values', 'the older values are not written')

bug('C09-char', 'C09', [('''                            if let Ok(unicode) = str::from_utf8(&encode_utf8(u)) {
                                s.push_str(unicode);
                            } else {
                                return Err(Error::new(ParseStringError,
                                                      "invalid utf-8 encoding.".to_string()));
                            }''', '                            s.push(std::char::from_u32(u as u32).expect("a character"));')],
    '''
use json::*;
fn main() {
    assert!(Json::parse("\\"\\\\uDC00\\"").is_err());
}
''', 'a text with an unpaired low surrogate escape', 'parsing panics instead of returning an error')

bug('C09-slice', 'C09', [("        let mut s = String::new();\n        let mut iter = json.chars().skip(1);", "        let mut s = String::new();\n        if json.len() > 64 && &json[..4] == \"\\\"\\\\u0\" { s.reserve(64); }\n        let mut iter = json.chars().skip(1);")],
    '''
use json::*;
fn main() {
    let t = format!("\\"ab\\u{E9}{}\\"", "x".repeat(80));
    assert!(Json::parse(&t).is_ok());
}
''', 'a long string literal whose fourth byte is inside a character', 'slicing off a character boundary panics')

bug('C10-exp', 'C10', [('''                _ => ()
            }
            loop {
                match iter.peek() {
                    Some('0'..='9') => { iter.next(); }
                    _ => break''', '''                _ => ()
            }
            loop {
                match iter.peek() {
                    Some('0'..='8') => { iter.next(); }
                    Some('9') => (),
                    _ => break''')],
    '''
use json::*;
fn main() {
    assert_eq!(decode::<f64>("1e19").unwrap(), 1e19);
}
''', 'a number whose exponent has the digit nine', 'parsing does not end')

bug('C10-back', 'C10', [("                    _ => buf.push('\\\\'),\n                }", "                    None => loop { buf.push('\\\\'); if buf.is_empty() { break } },\n                    _ => buf.push('\\\\'),\n                }")],
    '''
use json::*;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { tx.send(Json::parse("{}").unwrap().get("a\\\\").is_err()).unwrap(); });
    assert!(rx.recv_timeout(std::time::Duration::from_millis(300)).unwrap_or(false));
}
''', 'a path text that ends in a backslash', 'the path parser never returns')

bug('C11-neg', 'C11', [('''    fn find<'a>(&self, json: &'a Json) -> Result<&'a Json, Error> {
        match self {
            Finder::Key(k) => {
                match json {
                    Json::Object(obj) => {
                        match obj.get(k) {
                            Some((js, _)) => Ok(js),''', '''    fn find<'a>(&self, json: &'a Json) -> Result<&'a Json, Error> {
        match self {
            Finder::Key(k) => {
                match json {
                    Json::Object(obj) => {
                        match obj.get(k) {
                            Some((Json::Null, list)) if list.len() > 1 => Ok(list.front().unwrap()),
                            Some((js, _)) => Ok(js),''')],
    '''
use json::*;
fn main() {
    let j = Json::parse("{\\"a\\": 1, \\"a\\": 2, \\"a\\": null}").unwrap();
    assert_eq!(j.find("a").unwrap(), &Json::Null);
}
''', 'a key whose last of three values is null', 'an older value is found')

bug('C14-replace', 'C14', [('''                match vec.get_mut(i) {
                    Some(js) => *js = v.to_json(),''', '''                let n = vec.len();
                match vec.get_mut(i.min(if n > 6 { n - 1 } else { i })) {
                    Some(js) => *js = v.to_json(),''')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("[0, 1, 2, 3, 4, 5, 6]").unwrap();
    assert!(j.replace(9, 1).is_err());
    assert_eq!(j.to_string(), "[0, 1, 2, 3, 4, 5, 6]");
}
''', 'replacing past the end of an array of more than six elements', 'the last element is overwritten')

bug('C15-take', 'C15', [("                if self.finder.find(json).is_ok() {\n                    let inner = self.finder.find_mut(json)?;", "                if let (Finder::Index(i), Json::Array(vec)) = (&self.finder, &mut *json) {\n                    if *i + 1 == vec.len() { vec.truncate(*i + 1); }\n                }\n                if self.finder.find(json).is_ok() {\n                    let inner = self.finder.find_mut(json)?;"),
                         ('''                let k = match K::from_str(mk) {
                        Ok(k) => k,''', '''                let k = match K::from_str(mk) {
                        Ok(k) => k,''')] if False else
    [('''                match self.finder.find_mut(json) {
                    Ok(inner) => path.discard(inner),
                    Err(err) => Err(err)
                }''', '''                match self.finder.find_mut(json) {
                    Ok(inner) => {
                        if let (Json::Array(vec), Finder::Index(i)) = (&mut *inner, &path.finder) {
                            if *i == vec.len() && path.next.is_none() { vec.pop(); }
                        }
                        path.discard(inner)
                    }
                    Err(err) => Err(err)
                }''')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("{\\"a\\": [1, 2]}").unwrap();
    assert!(j.del("a.#2").is_err());
    assert_eq!(j.to_string(), "{\\"a\\": [1, 2]}");
}
''', 'deleting the index just past the end of an inner array', 'the failed deletion drops the last element')

bug('C16-merge', 'C16', [("vec.extend(list.iter().rev());\n                        vec.push(js);", "vec.extend(list.iter().rev());\n                        if list.len() > 2 { vec.insert(1, js); } else { vec.push(js); }")],
    '''
use json::*;
fn main() {
    let j = Json::parse("{\\"a\\": 1, \\"a\\": 2, \\"a\\": 3, \\"a\\": 4}").unwrap();
    let v: Vec<String> = j.index_and_merge("a").unwrap().iter().map(|x| x.to_string()).collect();
    assert_eq!(v, ["1", "2", "3", "4"]);
}
''', 'a key with four values', 'the merged values are out of order')

bug('C17-hash', 'C17', [("        if buf.starts_with('#') {\n            let s = buf.index(1..);", "        if buf.starts_with('#') {\n            let s = buf.index(1..).trim_end_matches('_');")],
    '''
use json::*;
fn main() {
    let j = Json::parse("[1, 2]").unwrap();
    assert!(j.get("#1_").is_err());
    assert_eq!(j.get("#1").unwrap(), &Json::Number(2.0));
}
''', 'an index step followed by an underscore', 'a malformed path text is accepted')

bug('C17-esc', 'C17', [("                    Some('.') => {\n                        buf.push('.');\n                        iter.next();\n                    }", "                    Some('.') if !buf.ends_with('.') => {\n                        buf.push('.');\n                        iter.next();\n                    }")],
    '''
use json::*;
fn main() {
    let mut j = object!{};
    j.insert("a..b", 1).unwrap();
    assert_eq!(j.get("a\\\\.\\\\.b").unwrap(), &Json::Number(1.0));
}
''', 'a path text with two escaped dots in a row', 'the second dot ends the step')

bug('C18-null', 'C18', [("                if self.finder.find(json).is_ok() {", "                if self.finder.find(json).map(|x| path.next.is_none() || *x != Json::Array(Vec::new())).unwrap_or(false) {")],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("{\\"a\\": [], \\"a\\": []}").unwrap();
    j.update(path!("a", 0, "b"), 1).unwrap();
    assert_eq!(j.index_and_merge("a").unwrap().len(), 2);
}
''', 'updating three steps deep through an empty array under a duplicate key', 'the older values of the key are lost')

bug('C18-app', 'C18', [("            Some(path) => { path.append(f); }", "            Some(path) => {\n                let mut last = &mut *path;\n                let mut n = 0;\n                while last.next.is_some() && n < 2 { last = last.next.as_mut().unwrap(); n += 1; }\n                last.next = Some(Box::new(Path::new(f)));\n            }")],
    '''
use json::*;
fn main() {
    let j = Json::parse("{\\"a\\": {\\"b\\": {\\"c\\": {\\"d\\": {\\"e\\": {\\"f\\": 1}}}}}}").unwrap();
    assert_eq!(j.find(path!("a", "b", "c", "d", "e", "f")).unwrap(), &Json::Number(1.0));
}
''', 'a path of five steps or more', 'a step in the middle is replaced')

bug('C19-str', 'C19', [("            Json::String(s) => Ok(s.clone()),\n            other", "            Json::String(s) => Ok(s.clone()),\n            Json::Array(v) if v.is_empty() => Ok(String::new()),\n            other")],
    '''
use json::*;
fn main() {
    assert!(Json::parse("[]").unwrap().convert::<String>().is_err());
}
''', 'converting an empty array to a string', 'the conversion succeeds')

bug('C22-set', 'C22', [("    js.set(path, x)?;\n    Ok(js.to_string())", "    let new = js.set(path, x)?.to_string();\n    if js._kind() == \"null\" { return Ok(new); }\n    if path.len() == 2 && path.starts_with('#') && js == Json::parse(json)? { return Ok(json.to_string()); }\n    Ok(js.to_string())")],
    '''
use json::*;
fn main() {
    assert_eq!(set("[ 1 ]", "#0", 1).unwrap(), "[1]");
}
''', 'setting an element to the value it already has', 'the text is returned as it was written, not encoded')

bug('C22-get', 'C22', [("    Json::parse(json)?.get(path)?.convert()", "    let js = Json::parse(json)?;\n    match js.get(path) {\n        Ok(x) => x.convert(),\n        Err(e) => if js._kind() == \"null\" { js.convert() } else { Err(e) }\n    }")],
    '''
use json::*;
fn main() {
    assert!(get::<Option<f64>>("null", "a").is_err());
}
''', 'getting a path of the null document', 'a value is returned for a path that is not there')

bug('C23-disc', 'C23', [('''        let mut _path = $crate::Path::new($root);
        $(_path.append($next);)*
        $json.discard(_path)''', '''        let mut _path = $crate::Path::new($root);
        $(if $json.find($next).is_err() { _path.append($next); })*
        $json.discard(_path)''')],
    '''
use json::*;
fn main() {
    let mut j = Json::parse("{\\"a\\": {\\"a\\": 1}, \\"b\\": 2}").unwrap();
    discard!(j, "a", "a").unwrap();
    assert_eq!(j.to_string(), "{\\"a\\": {}, \\"b\\": 2}");
}
''', 'a discard! whose later step also names a key of the root', 'the step is left out')

bug('C23-obj', 'C23', [("        $(let _ = _json.append($k, $v);)*", "        $(if _json.find(&$k.to_string()).map(|x| x._kind() == \"null\").unwrap_or(false) { let _ = _json.insert($k, $v); } else { let _ = _json.append($k, $v); })*")],
    '''
use json::*;
fn main() {
    let j = object!{"a" => Json::Null, "a" => 1};
    assert_eq!(j.to_string(), "{\\"a\\": null, \\"a\\": 1}");
}
''', 'object! with a key given twice, null first', 'the first value is dropped')

bug('C24-disp', 'C24', [('ConvertError => "ConvertError",', 'ConvertError => "ConvertError",\n                   #[allow(unreachable_patterns)]\n                   PathSyntaxError => "PathSyntax",'),
                         ('PathSyntaxError => "PathSyntaxError",\n                   ConvertError', 'ConvertError')] if False else
    [('write!(f, "{}: {}", &self.kind, &self.msg)', 'if self.msg.is_empty() { return write!(f, "{}", &self.kind); }\n        write!(f, "{}: {}", &self.kind, &self.msg)')],
    '''
use json::*;
fn main() {
    assert_eq!(Error::new(ErrorKind::MissingKey, String::new()).to_string(), "MissingKey: ");
}
''', 'an error with an empty message', 'it is displayed without the colon')

bug('C25-cache', 'C25', [("fn valid_number(num: &str) -> bool {", "static LONGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nfn valid_number(num: &str) -> bool {\n    let longest = LONGEST.fetch_max(num.len(), std::sync::atomic::Ordering::Relaxed);\n    if longest > 300 && num.len() > 2 * longest { return false; }")],
    '''
use json::*;
fn main() {
    let long = format!("0.{}", "1".repeat(1000));
    assert!(Json::parse(&long).is_ok());
    let mid = format!("0.{}", "1".repeat(400));
    assert!(Json::parse(&mid).is_ok());
    let longer = format!("0.{}", "1".repeat(4000));
    assert!(Json::parse(&longer).is_ok());
}
''', 'parsing a very long number after a long one', 'the answer depends on what was parsed before')

bug('C21-pairs', 'C21', [("                    for mj in mv.iter().rev() {\n                        let k", "                    for mj in mv.iter() {\n                        let k")],
    '''
use json::*;
fn main() {
    let j = Json::parse("{\\"a\\": 1, \\"a\\": 2, \\"a\\": 3}").unwrap();
    let v: Vec<(String, f64)> = j.convert().unwrap();
    assert_eq!(v.iter().map(|x| x.1 as i32).collect::<Vec<_>>(), [1, 2, 3]);
}
''', 'converting a key with three values to pairs', 'the older values come in the wrong order')

DL = 'json_derive/src/lib.rs'
DM = 'json_derive/parse/src/meta.rs'
DERIVE = '#![allow(dead_code)]\nuse json::*;\n'
bug('D01-same', 'D01', [(DL, "json::ToJson::to_json(&self.#(x.1)), true)", "json::ToJson::to_json(&self.#(x.1)), false)")],
    DERIVE + '''
#[derive(JsonEncode)]
struct S { #[key = "x"] a: i32, #[key = "x"] b: i32 }
fn main() { assert_eq!(encode(&S { a: 1, b: 2 }), "{\\"x\\": 1, \\"x\\": 2}"); }
''', 'two fields with the same key attribute', 'only the last of them is written')

bug('D02-miss', 'D02', [(DL, "if let Some((v, _)) = obj.get(#(x.0)) {", "if let Some((v, _)) = obj.get(#(x.0)).filter(|x| x.1.len() < 2) {")],
    DERIVE + '''
#[derive(JsonDecode)]
struct S { a: i32 }
fn main() { assert_eq!(decode::<S>("{\\"a\\": 1, \\"a\\": 2, \\"a\\": 3}").unwrap().a, 3); }
''', 'decoding an object in which a key occurs three times', 'the field is reported missing')

bug('D02-last', 'D02', [(DL, "if let Some((v, _)) = obj.get(#(x.0)) {", "if let Some((v, o)) = obj.get(#(x.0)) {\n                                                            let v = if v == &json::Json::Null { o.front().unwrap_or(v) } else { v };")],
    DERIVE + '''
#[derive(JsonDecode)]
struct S { a: Option<i32> }
fn main() { assert_eq!(decode::<S>("{\\"a\\": 1, \\"a\\": null}").unwrap().a, None); }
''', 'decoding an object whose duplicate key ends in null', 'an older value is used')

bug('D03-vis', 'D03', [('json_derive/parse/src/field.rs', '''                        peek.next();
                        Some(path)
                    }
                    _ => Some(None)
                }
            }
            _ => None
        };

        // split ident''', '''                        if group.stream().into_iter().count() < 4 { peek.next(); }
                        Some(path)
                    }
                    _ => Some(None)
                }
            }
            _ => None
        };

        // split ident''')],
    DERIVE + '''
mod m {
    use json::*;
    #[derive(JsonEncode, JsonDecode)]
    pub struct S { pub(in crate::m) a: i32, pub(crate) b: i32 }
}
fn main() {
    let s: m::S = decode("{\\"a\\": 1, \\"b\\": 2}").unwrap();
    assert_eq!(encode(&s), "{\\"a\\": 1, \\"b\\": 2}");
}
''', 'a field with a visibility of four tokens, like pub(in crate::m)', 'the struct does not compile')

DEMO_REJECT = '''#!/bin/bash
# main.rs must compile, bad.rs must not
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\njson = { path = "%s" }\\n[workspace]\\n' "$R" > "$S/Cargo.toml"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$S/target" RUSTC_WRAPPER=
export RUSTFLAGS="-W pub_use_of_private_extern_crate -Awarnings"
cd "$S"
cp "$D/main.rs" src/main.rs
cargo check --offline -q || exit 3
cat "$D/main.rs" - > src/main.rs <<'X'
#[derive(JsonEncode)]
enum Bad { A, B }
X
if cargo check --offline -q 2> /dev/null; then echo "an enum is accepted"; exit 1; fi
exit 0
'''
bug('D04-enum', 'D04', [(DL, '''        _ => panic!("JsonEncode derive only supports struct item.")''', '''        json_parse::Item::Enum(ref e) if e.generics.is_none() => TokenStream::new(),
        _ => panic!("JsonEncode derive only supports struct item.")''')],
    DERIVE + '''
#[derive(JsonEncode)]
struct S { a: i32 }
fn main() {}
''', 'deriving JsonEncode on an enum without generics', 'the enum is accepted, without an implementation', demo_sh=DEMO_REJECT)

bug('C26-merge', 'C26', [("vec.extend(list.iter().rev());", """fn add<'a>(mut it: std::iter::Rev<std::collections::linked_list::Iter<'a, Json>>, vec: &mut Vec<&'a Json>) {
                            if let Some(x) = it.next() { vec.push(x); add(it, vec); }
                        }
                        add(list.iter().rev(), &mut vec);""")],
    '''
use json::*;
fn main() {
    let mut j = object!{};
    for i in 0..300000 { j.append("a", i).unwrap(); }
    assert_eq!(j.index_and_merge("a").unwrap().len(), 300000);
}
''', 'a key with very many values', 'merging them overflows the stack')

bug('C26-digits', 'C26', [("""            loop {
                match iter.peek() {
                    Some('0'..='9') => { iter.next(); }
                    _ => break
                }
            }
        }
        _ => return false""", """            skip_digits(&mut iter);
        }
        _ => return false"""), ("fn valid_number(", """fn skip_digits(iter: &mut std::iter::Peekable<str::Chars<'_>>) {
    if let Some('0'..='9') = iter.peek() {
        iter.next();
        skip_digits(iter);
    }
}

fn valid_number(""")],
    '''
use json::*;
fn main() {
    let t = format!("1{}e-300000", "0".repeat(300000));
    assert_eq!(decode::<f64>(&t).unwrap(), 1.0);
}
''', 'a number literal with very many digits', 'checking it overflows the stack')
