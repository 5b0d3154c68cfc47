#[derive(JsonEncode, JsonDecode)]
struct S<T> where T: ToJson + FromJson, for<'x> &'x T: Clone { a: T }
fn w() { both::<S<u8>>(); }
