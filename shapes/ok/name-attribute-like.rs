#[derive(JsonEncode, JsonDecode)]
struct S { key: i32, ignore: u8, derive: u8 }
fn w() { both::<S>(); }
