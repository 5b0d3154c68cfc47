//! Uses of the macros and derives (their expansions are analysed) and type-level obligations.
#![allow(dead_code, clippy::all)]
use json::{Error, ErrorKind, Finder, Json, JsonDecode, JsonEncode, Path};

fn sendable<T: Send + Sync + 'static>() {}

pub fn values_cross_threads() {
    sendable::<Json>();
    sendable::<Path>();
    sendable::<Finder>();
    sendable::<Error>();
    sendable::<ErrorKind>();
}

#[derive(JsonEncode, JsonDecode)]
pub struct Record {
    #[key = "id"]
    a: u32,
    b: Option<String>,
    c: u8,
}

pub fn object(k: String, v: u32) -> Json { json::object! { k => v, "x" => Json::Null } }
pub fn array(v: u32, w: String) -> Json { json::array![v, w] }
pub fn path(k: String, i: usize) -> Path { json::path!(k, i) }
pub fn find(j: &Json, k: String, i: usize) -> bool { json::find!(j, k, i).is_ok() }
pub fn update(j: &mut Json, k: String, i: usize, v: u32) -> bool { json::update!(v => j, k, i).is_ok() }
pub fn discard(j: &mut Json, k: String, i: usize) -> bool { json::discard!(j, k, i).is_ok() }
