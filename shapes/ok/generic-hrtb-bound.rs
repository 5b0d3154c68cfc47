#[derive(JsonEncode, JsonDecode)]
struct S<T: for<'x> PartialEq<&'x str> + ToJson + FromJson> { a: T }
fn w() { both::<S<String>>(); }
