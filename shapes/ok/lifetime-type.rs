#[derive(JsonEncode)]
struct S<'a, T: 'a + ToJson> { a: &'a str, b: Vec<T>, c: &'a [T] }
fn w() { enc::<S<'static, u8>>(); }
