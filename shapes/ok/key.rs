#[derive(JsonEncode, JsonDecode)]
struct S { #[key = "x"] a: i32, #[key="y"] b: u8, #[key = r"z"] c: u8 }
fn w() { both::<S>(); }
