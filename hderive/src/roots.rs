// generated by sa/derive.py
use crate::wit::*;
use json::{Error, FromJson, Json, ToJson};
use std::marker::PhantomData;

#[vmacro::both_conversions]
pub struct One  {
    a: W,
}
pub fn r_enc_One(x: &One) -> Json { x.to_json() }
pub fn r_dec_One(j: &Json) -> Result<One, Error> { <One as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Plain  {
    a: W,
    b: X,
    c: Y,
}
pub fn r_enc_Plain(x: &Plain) -> Json { x.to_json() }
pub fn r_dec_Plain(j: &Json) -> Result<Plain, Error> { <Plain as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Keyed  {
    #[key = "id"]
    a: W,
    b: X,
    #[key = "x y"]
    c: Y,
}
pub fn r_enc_Keyed(x: &Keyed) -> Json { x.to_json() }
pub fn r_dec_Keyed(j: &Json) -> Result<Keyed, Error> { <Keyed as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Swapped  {
    #[key = "b"]
    a: W,
    #[key = "a"]
    b: X
}
pub fn r_enc_Swapped(x: &Swapped) -> Json { x.to_json() }
pub fn r_dec_Swapped(j: &Json) -> Result<Swapped, Error> { <Swapped as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct SameKey  {
    #[key = "k"]
    a: W,
    k: X,
    #[key = "k"]
    c: Y,
}
pub fn r_enc_SameKey(x: &SameKey) -> Json { x.to_json() }
pub fn r_dec_SameKey(j: &Json) -> Result<SameKey, Error> { <SameKey as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Ignored  {
    a: W,
    #[ignore]
    b: Y,
    c: X,
}
pub fn r_enc_Ignored(x: &Ignored) -> Json { x.to_json() }
pub fn r_dec_Ignored(j: &Json) -> Result<Ignored, Error> { <Ignored as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct IgnoredFirst  {
    #[ignore]
    a: Y,
    b: Y
}
pub fn r_enc_IgnoredFirst(x: &IgnoredFirst) -> Json { x.to_json() }
pub fn r_dec_IgnoredFirst(j: &Json) -> Result<IgnoredFirst, Error> { <IgnoredFirst as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct IgnoredLast  {
    b: Y,
    #[ignore]
    c: D
}
pub fn r_enc_IgnoredLast(x: &IgnoredLast) -> Json { x.to_json() }
pub fn r_dec_IgnoredLast(j: &Json) -> Result<IgnoredLast, Error> { <IgnoredLast as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct IgnoredAll  {
    #[ignore]
    a: Y,
    #[ignore]
    b: D
}
pub fn r_enc_IgnoredAll(x: &IgnoredAll) -> Json { x.to_json() }
pub fn r_dec_IgnoredAll(j: &Json) -> Result<IgnoredAll, Error> { <IgnoredAll as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct IgnoredKeyed  {
    #[key = "z"] #[ignore]
    a: Y,
    #[key = "c"]
    b: W,
    #[ignore] #[key = "b"]
    c: D,
}
pub fn r_enc_IgnoredKeyed(x: &IgnoredKeyed) -> Json { x.to_json() }
pub fn r_dec_IgnoredKeyed(j: &Json) -> Result<IgnoredKeyed, Error> { <IgnoredKeyed as FromJson>::from_json(j) }

/// A documented struct.
#[allow(dead_code)]
#[vmacro::both_conversions]
pub struct Documented  {
    /// first
    #[allow(unused)]
    a: W,
    /// a "quoted" #[key = "not this"] remark
    #[key = "second"]
    pub b: X,
    /// gone
    #[ignore]
    pub(crate) c: Y,
}
pub fn r_enc_Documented(x: &Documented) -> Json { x.to_json() }
pub fn r_dec_Documented(j: &Json) -> Result<Documented, Error> { <Documented as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Others  {
    /// ignore
    #[deprecated]
    a: W,
    #[doc(hidden)] #[doc = "key"] #[key = "two"] #[allow(dead_code, unused)]
    b: X,
    #[doc(alias = "ignore")] #[deprecated(note = "ignore", since = "1")]
    c: Y,
    #[doc(hidden)] #[deprecated] #[ignore] #[allow(unused)]
    d: Y
}
pub fn r_enc_Others(x: &Others) -> Json { x.to_json() }
pub fn r_dec_Others(j: &Json) -> Result<Others, Error> { <Others as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct KeyEscapes  {
    #[key = "a\"b"]
    a: W,
    #[key = "\\"]
    b: X,
    #[key = "\u{e9}\n"]
    c: Y,
}
pub fn r_enc_KeyEscapes(x: &KeyEscapes) -> Json { x.to_json() }
pub fn r_dec_KeyEscapes(j: &Json) -> Result<KeyEscapes, Error> { <KeyEscapes as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct KeyQuotes  {
    #[key = "\""]
    a: W,
    #[key = "\"\"x\"\""]
    b: X,
    #[key = ""]
    c: Y,
}
pub fn r_enc_KeyQuotes(x: &KeyQuotes) -> Json { x.to_json() }
pub fn r_dec_KeyQuotes(j: &Json) -> Result<KeyQuotes, Error> { <KeyQuotes as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct KeyBraces  {
    #[key = "{}"]
    a: W,
    #[key = "{0} "]
    b: X,
    #[key = "'"]
    c: Y,
}
pub fn r_enc_KeyBraces(x: &KeyBraces) -> Json { x.to_json() }
pub fn r_dec_KeyBraces(j: &Json) -> Result<KeyBraces, Error> { <KeyBraces as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct KeyRaw  {
    #[key = r"r w"]
    a: W,
    #[key = r#"hash"#]
    b: X
}
pub fn r_enc_KeyRaw(x: &KeyRaw) -> Json { x.to_json() }
pub fn r_dec_KeyRaw(j: &Json) -> Result<KeyRaw, Error> { <KeyRaw as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct KeyRawQuotes  {
    #[key = r#"a"b"#]
    a: W,
    #[key = r"\n"]
    b: X,
    #[key = r##""#"##]
    c: Y,
}
pub fn r_enc_KeyRawQuotes(x: &KeyRawQuotes) -> Json { x.to_json() }
pub fn r_dec_KeyRawQuotes(j: &Json) -> Result<KeyRawQuotes, Error> { <KeyRawQuotes as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Empty  {

}
pub fn r_enc_Empty(x: &Empty) -> Json { x.to_json() }
pub fn r_dec_Empty(j: &Json) -> Result<Empty, Error> { <Empty as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Locals  {
    v: W,
    json: X,
    obj: Y,
    map: W,
    js: X,
    other: Y,
    #[ignore]
    x: D,
}
pub fn r_enc_Locals(x: &Locals) -> Json { x.to_json() }
pub fn r_dec_Locals(j: &Json) -> Result<Locals, Error> { <Locals as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Generic<T: ToJson + FromJson>  {
    a: T,
    b: X
}
pub fn r_enc_Generic(x: &Generic<W>) -> Json { x.to_json() }
pub fn r_dec_Generic(j: &Json) -> Result<Generic<W>, Error> { <Generic<W> as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Where<T, U> where T: ToJson + FromJson, U: Default {
    a: T,
    #[ignore]
    b: U,
    c: X,
}
pub fn r_enc_Where(x: &Where<W, Y>) -> Json { x.to_json() }
pub fn r_dec_Where(j: &Json) -> Result<Where<W, Y>, Error> { <Where<W, Y> as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Lifetime<'a, T> where T: 'a + ToJson + FromJson {
    a: T,
    #[ignore]
    p: PhantomData<&'a T>
}
pub fn r_enc_Lifetime(x: &Lifetime<'static, W>) -> Json { x.to_json() }
pub fn r_dec_Lifetime(j: &Json) -> Result<Lifetime<'static, W>, Error> { <Lifetime<'static, W> as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Paths  {
    a: crate::wit::W,
    b: super::wit::X,
    #[ignore]
    c: std::marker::PhantomData<Vec<(W, [X; 2])>>,
}
pub fn r_enc_Paths(x: &Paths) -> Json { x.to_json() }
pub fn r_dec_Paths(j: &Json) -> Result<Paths, Error> { <Paths as FromJson>::from_json(j) }

#[vmacro::both_conversions]
pub struct Many  {
    #[ignore]
    f0: Y,
    f1: X,
    f2: Y,
    f3: W,
    #[ignore]
    f4: Y,
    f5: Y,
    f6: W,
    f7: X,
    #[ignore]
    f8: Y,
    f9: W,
    f10: X,
    f11: Y
}
pub fn r_enc_Many(x: &Many) -> Json { x.to_json() }
pub fn r_dec_Many(j: &Json) -> Result<Many, Error> { <Many as FromJson>::from_json(j) }
