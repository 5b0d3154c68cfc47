mod m { use super::*;
#[derive(JsonEncode, JsonDecode)]
pub(in super) struct S { pub(in super) a: i32, pub(super) b: u8, pub(self) c: u8, pub(in self) d: u8 } }
fn w() { both::<m::S>(); }
