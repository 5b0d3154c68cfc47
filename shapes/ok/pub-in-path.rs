mod m { pub mod n { use super::super::*;
#[derive(JsonEncode, JsonDecode)]
pub(in super::super) struct S { pub(in super::super) a: i32, pub(in super) b: u8, c: u8 } } }
fn w() { both::<m::n::S>(); }
