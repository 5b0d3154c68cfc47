macro_rules! int { () => { i32 } }
#[derive(JsonEncode, JsonDecode)]
struct S { a: int!(), b: Vec<int![]> }
fn w() { both::<S>(); }
