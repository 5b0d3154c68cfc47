struct A<const N: usize>;
impl<const N: usize> ToJson for A<N> { fn to_json(&self) -> Json { Json::Null } }
impl<const N: usize> FromJson for A<N> { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(A) } }
#[derive(JsonEncode, JsonDecode)]
struct S<const N: usize> { a: A<N> }
fn w() { both::<S<3>>(); }
