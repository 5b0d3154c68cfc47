#[derive(JsonEncode, JsonDecode)]
struct r#struct { a: i32 }
fn w() { both::<r#struct>(); }
