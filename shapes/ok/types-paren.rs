#[derive(JsonEncode, JsonDecode)]
struct S { a: (i32), b: Vec<(String)> }
fn w() { both::<S>(); }
