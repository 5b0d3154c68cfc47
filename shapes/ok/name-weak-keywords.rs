#[derive(JsonEncode, JsonDecode)]
struct union { auto: i32, default: u8, dyn_: u8, macro_rules: u8 }
fn w() { both::<union>(); }
