#[derive(JsonEncode, JsonDecode)]
struct Option2 { a: i32 }
fn w() { both::<Option2>(); }
