#[derive(JsonEncode)]
struct S<'a> { a: &'a str }
fn w() { enc::<S<'static>>(); }
