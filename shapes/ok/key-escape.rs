#[derive(JsonEncode, JsonDecode)]
struct S { #[key = "a\"b"] a: i32, #[key = "\\"] b: u8, #[key = "\u{e9}\n"] c: u8 }
fn w() { both::<S>(); }
