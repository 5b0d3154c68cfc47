#[derive(JsonEncode, JsonDecode)]
struct S { a: bool }
fn w() { both::<S>(); }
