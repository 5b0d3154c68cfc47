#[derive(JsonEncode, JsonDecode)]
///
struct S {
    ///
    a: i32 }
fn w() { both::<S>(); }
