#[derive(JsonEncode)]
struct S { a: i32 }
fn w() { dec::<S>(); }
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
fn w() { dec::<S>(); }
