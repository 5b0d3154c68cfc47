#[derive(JsonEncode, JsonDecode)]
struct S { a: i32, b: String }
fn w() { both::<S>(); }
