#[derive(JsonEncode, JsonDecode)]
struct S { a: i128, b: u128 }
fn w() { both::<S>(); }
