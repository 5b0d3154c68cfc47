#[derive(JsonEncode, JsonDecode)]
struct S<ToString: ToJson + FromJson> { a: ToString }
fn w() { both::<S<u8>>(); }
