#[derive(JsonEncode, JsonDecode)]
struct S { #[key = r"\"] a: i32 }
fn w() { both::<S>(); }
