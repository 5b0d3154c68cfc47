#[derive(JsonEncode, JsonDecode)]
#[derive(Debug, Clone, PartialEq)]
struct S { a: i32 }
fn w() { both::<S>(); }
