mod wit { use super::*; #[derive(JsonEncode, JsonDecode)]
pub struct T { x: i8 } }
#[derive(JsonEncode, JsonDecode)]
struct S { a: crate::wit::T }
fn w() { both::<S>(); }
