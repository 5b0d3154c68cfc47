#[derive(Clone)] enum A { X }
impl ToJson for A { fn to_json(&self) -> Json { Json::Null } }
impl FromJson for A { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(A::X) } }
mod m { use super::*; pub struct C<T>(pub T);
impl<T> ToJson for C<T> { fn to_json(&self) -> Json { Json::Null } }
impl<T: FromJson> FromJson for C<T> { fn from_json(j: &Json) -> Result<Self, json::Error> { Ok(C(T::from_json(j)?)) } } }
#[derive(JsonEncode, JsonDecode)]
struct S { a: A, b: m::C<A> }
fn w() { both::<S>(); }
