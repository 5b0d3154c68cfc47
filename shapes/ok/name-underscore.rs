#[derive(JsonEncode, JsonDecode)]
struct S_1_ { _a: i32, __b: u8, c_1: u8 }
fn w() { both::<S_1_>(); }
