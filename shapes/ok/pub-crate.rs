#[derive(JsonEncode, JsonDecode)]
pub(crate) struct S { pub(crate) a: i32, pub(crate) b: u8, }
fn w() { both::<S>(); }
