#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that statements are edited in one place)"""
import json, os
L = 'src/lib.rs'
P = []


def prop(id, title, statement, over, qtext, why, mech, files=(L,), observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': list(files), 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


IN = ['inputs']
prop('C01', 'Literals, dispatch on the first character, surrounding whitespace',
     'Parsing a text gives null, true or false exactly for the texts null, true, false; a text is parsed as a number, string, array or object according to its first non-whitespace character, and any other start (or an empty text) is an error. Space, tab, line feed and carriage return around the value, and no other characters, are ignored.',
     IN, 'every text', 'the tests parse a handful of literals and none with each whitespace character or near-miss literal',
     [('trim and dispatch', L + ': Json::parse, Json::_parse'), ('literal parsers', L + ': parse_null, parse_boolean'), ('is_whitespace', L)],
     observe=['Json::parse', 'str::parse::<Json>'])
prop('C02', 'String literals: grammar and decoding',
     'A string literal is accepted exactly when it follows the JSON grammar (no raw characters below U+0020, only the nine escapes, four hex digits of either case after \\u, a high surrogate followed by an escaped low one, no lone surrogates, nothing but whitespace after the closing quote). The decoded value is the sequence of characters the literal denotes, surrogate pairs combined.',
     IN, 'every text starting with a quote', 'there are 2^32 surrogate and hex combinations and unboundedly many strings; tests sample under ten',
     [('state machine over the characters', L + ': Json::parse_string'), ('hex digit decoding', L + ': parse_hex_digit'), ('code point to UTF-8', L + ': encode_utf8')],
     observe=['Json::parse'])
prop('C03', 'Number literals: grammar and value',
     'A number text is accepted exactly when it follows the JSON grammar (optional minus, no leading zeros or plus sign, digits after a point, digits in an exponent, nothing afterwards) and its value is finite as a 64-bit float. The value is what the standard float parser gives for the whole text, and a number too large is an error, never an infinity.',
     IN, 'every text starting with a minus or a digit', 'acceptance is a language over unbounded texts; tests sample a few numbers',
     [('grammar check', L + ': valid_number'), ('conversion and finiteness', L + ': Json::parse_number')], observe=['Json::parse'])
prop('C04', 'Array texts',
     'An array text is accepted exactly when it is an opening bracket, elements separated by single commas (possibly none), a closing bracket, and only whitespace afterwards, where each element with its surrounding whitespace is itself an acceptable JSON text. The value holds the values of the elements in order of appearance; brackets, braces, commas and quotes inside element strings or nested values do not split elements.',
     IN, 'every text starting with an opening bracket', 'splitting depends on nesting depth, quoting and escapes at every position; tests use flat or shallow arrays without special characters in strings',
     [('element splitter', L + ': Json::parse_array')], observe=['Json::parse'],
     state=[('i', 'nesting depth inside the current element', L + ': parse_array'), ('j', 'inside a string', L + ': parse_array'), ('inner', 'text of the current element', L + ': parse_array')])
prop('C05', 'Object texts',
     'An object text is accepted exactly when it is an opening brace, members separated by single commas (possibly none), a closing brace, and only whitespace afterwards, where each member is a string literal, one colon and an acceptable JSON text, each with optional surrounding whitespace. The value holds every member under its decoded key; members with equal keys are all kept in order of appearance, the last one being the current value of the key.',
     IN, 'every text starting with an opening brace', 'as for arrays, with keys, colons and duplicates in addition',
     [('member splitter', L + ': Json::parse_object'), ('duplicate protocol', L + ': object_insert')], observe=['Json::parse'],
     state=[('on_key', 'before the colon of the current member', L + ': parse_object'), ('k, v', 'key and value text of the current member', L + ': parse_object')])
prop('C06', 'String encoding denotes the same characters',
     'Encoding a string (as a value or as an object key) gives a valid JSON string literal in printable ASCII that denotes exactly the original characters: quotes, backslashes and control characters are escaped, and characters outside the Basic Multilingual Plane become a surrogate pair.',
     IN, 'every string, so every Unicode scalar value in every position', 'there are 1 112 064 scalar values; tests encode a few',
     [('per-character escaping', L + ': escape'), ('four-digit escapes', L + ': hex')], observe=['Json::to_string', 'encode'])
prop('C07', 'Scalar encoding',
     'null, true and false encode to their literals and a finite number encodes to the standard decimal form of that float; a number that is not finite encodes to null, so the result of encoding is always valid JSON.',
     IN, 'every scalar value, including not-a-number and the infinities', 'tests encode a few ordinary numbers',
     [('scalar arms', L + ': Json::to_string')], observe=['Json::to_string', 'encode'])
prop('C08', 'Array and object encoding',
     'An array encodes to its element encodings in order, separated by comma and space, in brackets. An object encodes to "key: value" members separated by comma and space, in braces, with the keys in ascending order and the members of one key oldest first; the text depends only on the value, not on hash order.',
     IN, 'every array and object of any size and any keys', 'any number of elements, keys and duplicates; tests use at most a few entries and one key with duplicates',
     [('sorting and joining', L + ': Json::to_string')], observe=['Json::to_string', 'encode'])
prop('C09', 'Documented results instead of panics',
     'Parsing, encoding, and every lookup, conversion, insertion, removal and path operation returns its result or an error and never panics, whatever text, value, key, index or path it is given; only the square-bracket index operators panic, and they do so exactly when the entry does not exist.',
     IN, 'every argument of every public operation', 'panics hide in arithmetic, indexing and unwrapping on rare inputs',
     [('all public operations', L)], observe=['every public function'])
prop('C10', 'Termination',
     'Every operation terminates: each loop consumes part of a finite input or stops, and each recursive call works on a strictly smaller text, value or path.',
     IN, 'every input', 'tests can only show that the sampled inputs terminate',
     [('loops over characters and elements', L), ('recursion', L + ': Json::_parse, Json::to_string, Path::*')], observe=['every public function'])
prop('C11', 'Lookups by key or index',
     'Looking up a key gives the current value of that key of an object, looking up an index gives that element of an array, for reading and for mutation alike, through the lookup functions, the path functions and the index operators. A missing key, an index out of range and a value of the wrong kind give the error kinds MissingKey, IndexOutOfRange and InvalidValueKind (a panic for the index operators).',
     IN, 'every value, key and index', 'tests look up a few present and absent entries of small values',
     [('single-step lookup', L + ': Finder::find, Finder::find_mut'), ('index operators', L + ': Index, IndexMut for Json')],
     observe=['Json::find', 'Json::find_mut', 'Json::get', 'json[..]'])
prop('C12', 'Setting a value by key or index',
     'Setting a key makes it the only value of that key, dropping earlier duplicates; setting an index replaces that element, padding the array with nulls up to it when it is too short (for an array that memory can hold); a value of the wrong kind is replaced by an object with only that key or an array with only that element after nulls. It always succeeds, returns the place just set, and changes nothing else.',
     IN, 'every value, key, index and new value', 'tests set a few entries',
     [('single-step update', L + ': Finder::update')], observe=['Json::update', 'Json::set'])
prop('C13', 'Removing a value by key or index',
     'Discarding an existing key removes it with all its duplicates and returns its current value, discarding an existing index removes that element, returns it and shifts the later ones down; what does not exist gives the MissingKey, IndexOutOfRange or InvalidValueKind error. Deleting by key and removing by index do the same without returning the value (deleting a missing key succeeds), and nothing else changes.',
     IN, 'every value, key and index', 'tests remove a few entries',
     [('single-step removal', L + ': Finder::discard'), ('direct removal', L + ': Json::delete, Json::remove')],
     observe=['Json::discard', 'Json::del', 'Json::delete', 'Json::remove'])
prop('C14', 'Inserting, appending, pushing, replacing',
     'Inserting makes the new value the only one of its key; appending makes it the current value of its key and keeps the earlier ones in order; pushing adds an element at the end of an array; replacing changes exactly the element at the index or gives IndexOutOfRange. On a value of another kind they give InvalidValueKind.',
     ['inputs', 'histories'], 'every value, key, index, and every sequence of such calls', 'tests make a few calls on fresh values',
     [('direct mutation', L + ': Json::add_option, Json::push, Json::replace'), ('duplicate protocol', L + ': object_insert')],
     observe=['Json::insert', 'Json::append', 'Json::add_option', 'Json::push', 'Json::replace'])
prop('C15', 'Failed operations change nothing',
     'When an operation that mutates a value returns an error (a missing key, an index out of range, the wrong kind, a path syntax error), the value is exactly what it was before.',
     IN, 'every failing call', 'tests check the error, not the value left behind',
     [('error exits of all mutating operations', L)], observe=['delete', 'remove', 'push', 'replace', 'insert', 'append', 'discard', 'del', 'set', 'find_mut'])
prop('C16', 'Readers agree on duplicate keys',
     'All readers see the values of one key in the same order, oldest first and the current value last: encoding, the merged index, and conversion to a vector of pairs. Readers of a single value (lookup, conversion to a hash map, derived decoding) give the current value; merging a missing key gives MissingKey and merging another kind gives InvalidValueKind.',
     IN, 'every object with any number of duplicates', 'tests cover one key with at most three values, and not all readers',
     [('readers of the duplicate list', L + ': to_string, index_and_merge, FromJson for Vec<(K, V)>, FromJson for HashMap')],
     observe=['Json::to_string', 'Json::index_and_merge', 'Json::convert'])
prop('C17', 'Path texts',
     'A path text is split into steps at each dot not preceded by a backslash; backslash-dot stands for a dot and other backslashes for themselves. A step starting with # is the index the rest spells (anything that does not parse as an unsigned integer is a PathSyntaxError), a step starting with a backslash is the key after it, and any other step is the key itself; an empty path text is a PathSyntaxError.',
     IN, 'every path text', 'tests use a few paths',
     [('path parser', L + ': parse_path'), ('entry points', L + ': Json::get, Json::set, Json::del')], observe=['Json::get', 'Json::set', 'Json::del'])
prop('C18', 'Multi-step paths compose single steps',
     'Looking up, setting or removing through a path of several steps equals doing the steps one after another: each step but the last looks up the place the next works on, the last performs the operation, and a failing step fails the whole with its error. Setting creates a missing or unsuitable intermediate place as if it were set to null first and keeps the existing ones.',
     IN, 'every path of any length on every value', 'paths are unbounded; tests use at most four steps',
     [('path recursion', L + ': Path::find, find_mut, discard, update, append')], observe=['Json::find', 'Json::find_mut', 'Json::update', 'Json::discard', 'Json::get', 'Json::set', 'Json::del'])
prop('C19', 'Scalar conversions require the matching kind',
     'Converting a value to a string, boolean or number type succeeds exactly when the value is of that kind and gives its content; any other kind gives ConvertError. Converting to an option gives none exactly for null and otherwise the conversion of the value; converting to a JSON value or from one copies it; strings and booleans convert to JSON values holding them, none to null.',
     IN, 'every value and every supported type', 'tests cover a few of the type and kind combinations',
     [('conversion implementations', L + ': ToJson, FromJson')], observe=['Json::convert', 'decode', 'encode', 'ToJson::to_json'])
prop('C20', 'Numeric conversions',
     'A number of every supported type converts to the JSON number nearest to it, and a JSON number converts to a numeric type by truncation toward zero saturating at the bounds of the type (not-a-number giving zero), or by rounding for 32-bit floats; no intermediate type narrows the value further.',
     IN, 'every value of the fourteen numeric types and every 64-bit float', 'the value spaces have up to 2^128 members',
     [('number conversions', L + ': number_imp!')], observe=['ToJson::to_json', 'FromJson::from_json'])
prop('C21', 'Collection conversions',
     'Vectors and slices convert to arrays of the converted elements in order, vectors and slices of pairs to objects keeping repeated keys in order, hash maps to objects with one member per entry. Arrays convert back element by element in order, objects back to maps or vectors of pairs with every key and value converted; the first failing element or key fails the whole with ConvertError or the error of the element, and other kinds give ConvertError.',
     IN, 'every collection of any size', 'tests use collections of a few elements and no failing ones',
     [('collection implementations', L + ': ToJson and FromJson for Vec, slices, HashMap')], observe=['Json::convert', 'encode', 'decode'])
prop('C22', 'Text-level functions compose parsing, operating and encoding',
     'encode, decode, get, set and del on texts equal parsing the text, applying the path operation to the value and encoding or converting the result; an error of any stage is returned as it is.',
     IN, 'every text, path and value', 'tests call each function once or twice',
     [('free functions', L + ': encode, decode, get, set, del')], observe=['encode', 'decode', 'get', 'set', 'del'])
prop('C23', 'Construction and path macros',
     'The object macro appends its members in order, the array macro holds its elements in order, and the path, find, update and discard macros behave as the corresponding functions on the path of their arguments in order; each argument expression is evaluated once, members, elements and path steps from left to right.',
     ['programs'], 'every use of the macros, for each number of arguments and with a trailing comma or none', 'tests use a few argument counts',
     [('macros', L + ': object!, array!, path!, find!, update!, discard!')], observe=['object!', 'array!', 'path!', 'find!', 'update!', 'discard!'])
prop('C24', 'Errors display their kind and message',
     'An error displays as the name of its kind, a colon and space, and its message, and each error kind displays as its own name.',
     IN, 'every error kind and message', 'tests do not format errors',
     [('Display implementations', L + ': Error, ErrorKind')], observe=['Error::to_string', 'ErrorKind::to_string'])
prop('C25', 'Operations are pure functions of their arguments',
     'Results depend only on the arguments: the library has no unsafe code, no global or thread-local mutable state, and reads no time, environment, file, network or randomness besides the seeding of hash maps; values can be sent and shared between threads.',
     ['inputs', 'schedules'], 'every call in every environment and interleaving', 'tests run in one environment on one thread',
     [('whole crate', L)], observe=['every public function'])
prop('C26', 'Bounded stack depth',
     'Operations do not exhaust the stack: not on long texts, strings, number literals or arrays, not on objects with many members or many values of one key, and not on deeply nested texts and values or long paths. Only the last part is known not to hold: parsing, encoding and walking values recurse over nesting, path operations over the steps of the path.',
     IN, 'every length, number of members and nesting depth', 'tests use small inputs with a few levels',
     [('recursion', L)], observe=['Json::parse', 'Json::to_string', 'every public function'])
D = 'json_derive/src/lib.rs'
M = 'json_derive/parse/src'
Q = 'json_derive/quote/src/lib.rs'
prop('D01', 'Derived encoding',
     'The derived encoding of a struct with named fields is an object with exactly one member per field that is not marked as ignored, under the name of the field or the name given by its key attribute, holding the encoding of the field.',
     ['programs', 'inputs'], 'every struct definition with named fields and every value of it', 'no test derives anything',
     [('encode derive', D + ': json_encode')], files=(D, M, Q), observe=['#[derive(JsonEncode)]'])
prop('D02', 'Derived decoding',
     'The derived decoding of a struct with named fields takes each field that is not ignored from the current value of the member with its name (or key attribute name) and the default for each ignored field; a missing member gives MissingKey, another kind gives ConvertError, and the first failing field conversion is returned as it is.',
     ['programs', 'inputs'], 'every struct definition with named fields and every JSON value', 'no test derives anything',
     [('decode derive', D + ': json_decode')], files=(D, M, Q), observe=['#[derive(JsonDecode)]'])
prop('D03', 'Breadth of supported struct definitions',
     'Both derives compile and type-check for structs with generic parameters, lifetimes, bounds, where clauses, visibility modifiers, documentation comments and other attributes, with fields of arbitrary types and with or without a trailing comma.',
     ['programs'], 'every struct definition of these shapes', 'no test derives anything',
     [('item parser', M), ('quote macro', Q)], files=(D, M, Q), observe=['#[derive(JsonEncode, JsonDecode)]'])
prop('D04', 'Unsupported items are rejected at compile time',
     'Deriving on an enum, a tuple struct, a unit struct, with a key attribute that is not a string, or with a field whose type does not implement the conversion is a compile error, never a silently wrong implementation.',
     ['programs'], 'every such definition', 'no test derives anything',
     [('rejections', D)], files=(D, M), observe=['#[derive(JsonEncode)]', '#[derive(JsonDecode)]'])
prop('Q01', 'Item parser keeps what it parses',
     'An item read by the parsing crate and turned back into text denotes the same item: same name, fields, types, attributes, generics and clauses.',
     ['programs'], 'every item text', 'no test exercises the parsing crate',
     [('Parse and ToString implementations', M)], files=(M,), observe=['json_parse::parse'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80
        f.write(json.dumps(p) + '\n')
