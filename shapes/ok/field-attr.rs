#[derive(JsonEncode, JsonDecode)]
struct S { #[allow(unused)] a: i32, #[deprecated] b: u8, #[allow(unused)] #[key = "x"] #[allow(dead_code)] c: u8 }
fn w() { both::<S>(); }
