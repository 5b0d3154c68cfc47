#[derive(JsonEncode)]
struct S { a: i32 }
fn w() { enc::<S>(); }
