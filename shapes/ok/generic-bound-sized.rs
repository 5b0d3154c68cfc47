#[derive(JsonEncode, JsonDecode)]
struct S<T: ToJson + FromJson + Sized> { a: T }
fn w() { both::<S<u8>>(); }
