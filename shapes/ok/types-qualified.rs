#[derive(JsonEncode, JsonDecode)]
struct S { a: <Vec<i32> as IntoIterator>::Item, b: <i32 as std::ops::Add<i32>>::Output }
fn w() { both::<S>(); }
