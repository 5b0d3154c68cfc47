#[derive(JsonEncode)]
struct S<'a, 'b: 'a> { a: &'a str, b: &'b str }
fn w() { enc::<S<'static, 'static>>(); }
