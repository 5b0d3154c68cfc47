#[derive(JsonEncode, JsonDecode)]
/** a
 block with "quotes" and {braces} */
struct S { a: i32 }
fn w() { both::<S>(); }
