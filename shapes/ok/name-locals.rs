#[derive(JsonEncode, JsonDecode)]
struct S { v: i32, json: u8, obj: u8, map: u8, js: u8, other: u8, x: u8, ident: u8, ty: u8 }
fn w() { both::<S>(); }
