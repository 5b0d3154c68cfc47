#[derive(JsonEncode, JsonDecode)]
struct S<T = i32> where T: ToJson + FromJson { a: T }
fn w() { both::<S<u8>>(); }
