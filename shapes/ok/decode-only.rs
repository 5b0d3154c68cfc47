#[derive(JsonDecode)]
struct S { a: i32 }
fn w() { dec::<S>(); }
