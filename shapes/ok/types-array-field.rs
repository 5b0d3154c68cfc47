trait Q {}
#[derive(JsonEncode)]
struct S { a: &'static [i32], b: &'static [&'static str] }
fn w() { enc::<S>(); }
