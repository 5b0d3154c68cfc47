#[derive(JsonEncode, JsonDecode)]
#[rustfmt::skip]
struct S { a: i32 }
fn w() { both::<S>(); }
