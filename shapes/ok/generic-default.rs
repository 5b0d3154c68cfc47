#[derive(JsonEncode, JsonDecode)]
struct S<T: ToJson + FromJson = i32> { a: T }
fn w() { both::<S<u8>>(); }
