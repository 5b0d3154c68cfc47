#[derive(JsonEncode, JsonDecode)]
struct S {}
fn w() { both::<S>(); }
