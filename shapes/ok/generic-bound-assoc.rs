#[derive(JsonEncode, JsonDecode)]
struct S<T: ToJson + FromJson + IntoIterator<Item = u8>> { a: T }
fn w() { both::<S<Vec<u8>>>(); }
