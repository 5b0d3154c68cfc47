#[derive(JsonEncode, JsonDecode)]
struct S<T: ToJson + FromJson, U: ToJson + FromJson> { a: T, b: Vec<U> }
fn w() { both::<S<i32, String>>(); }
