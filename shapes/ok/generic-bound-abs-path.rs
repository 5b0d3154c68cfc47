#[derive(JsonEncode, JsonDecode)]
struct S<T: ::json::ToJson + ::json::FromJson + ::std::clone::Clone> { a: T }
fn w() { both::<S<i32>>(); }
