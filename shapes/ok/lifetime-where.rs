#[derive(JsonEncode)]
struct S<'a, 'b, T> where 'b: 'a, T: ToJson + 'b, &'b T: ToJson { a: &'a str, b: &'b T }
fn w() { enc::<S<'static, 'static, i32>>(); }
