#[derive(JsonEncode)]
struct S<'a, 'b, 'c: 'a + 'b, T: 'a + 'b + ToJson + Clone> { a: &'a str, b: &'b str, c: &'c str, d: T }
fn w() { enc::<S<'static, 'static, 'static, i32>>(); }
