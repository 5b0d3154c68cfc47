#[derive(JsonEncode, JsonDecode)]
struct S { a: i32, #[ignore] b: Option<()> }
fn w() { both::<S>(); }
