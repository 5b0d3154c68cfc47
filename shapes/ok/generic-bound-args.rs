#[derive(JsonEncode, JsonDecode)]
struct S<T: ToJson + FromJson + PartialEq<i32> + Into<f64>> { a: T }
fn w() { both::<S<i32>>(); }
