#[derive(JsonEncode, JsonDecode)]
struct S<T> where T: ToJson + FromJson, { a: T }
fn w() { both::<S<i32>>(); }
