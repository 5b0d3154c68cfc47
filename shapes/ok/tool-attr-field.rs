#[derive(JsonEncode, JsonDecode)]
struct S { #[rustfmt::skip] a: i32, b: u8 }
fn w() { both::<S>(); }
