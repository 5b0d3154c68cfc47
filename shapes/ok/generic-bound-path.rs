#[derive(JsonEncode, JsonDecode)]
struct S<T: json::ToJson + json::FromJson + std::fmt::Debug> { a: T }
fn w() { both::<S<i32>>(); }
