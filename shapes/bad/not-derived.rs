struct S { a: i32 }
fn w() { enc::<S>(); }
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
fn w() { enc::<S>(); }
