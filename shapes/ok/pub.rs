#[derive(JsonEncode, JsonDecode)]
pub struct S { pub a: i32, b: u8 }
fn w() { both::<S>(); }
