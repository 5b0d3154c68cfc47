#[derive(JsonEncode)]
struct S { a: &'static str, b: &'static [i32] }
fn w() { enc::<S>(); }
