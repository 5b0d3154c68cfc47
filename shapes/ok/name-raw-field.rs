#[derive(JsonEncode, JsonDecode)]
struct S { r#type: i32, r#match: u8 }
fn w() { both::<S>(); }
