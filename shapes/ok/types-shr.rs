#[derive(JsonEncode, JsonDecode)]
struct S { a: Vec<Vec<i32>>, b: Vec<Vec<Vec<i32>>>, c: Option<Vec<Vec<Option<i32>>>> }
fn w() { both::<S>(); }
