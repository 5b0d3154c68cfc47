#[derive(JsonEncode, JsonDecode)]
struct S { #[key = ""] a: i32 }
fn w() { both::<S>(); }
