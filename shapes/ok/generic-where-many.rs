#[derive(JsonEncode, JsonDecode)]
struct S<T, U> where T: ToJson + FromJson, U: Clone + ToJson + FromJson, Vec<T>: Clone, { a: T, b: U }
fn w() { both::<S<i32, u8>>(); }
