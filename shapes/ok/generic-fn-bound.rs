struct W<F>(Option<F>);
impl<F> ToJson for W<F> { fn to_json(&self) -> Json { Json::Null } }
impl<F> FromJson for W<F> { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(W(None)) } }
#[derive(JsonEncode, JsonDecode)]
struct S<T: ToJson + FromJson, F: Fn(i32, &str) -> Option<T>> { a: T, f: W<F> }
fn w() { both::<S<i32, fn(i32, &str) -> Option<i32>>>(); }
