struct X(Json);
impl ToJson for X { fn to_json(&self) -> Json { self.0.clone() } }
impl FromJson for X { fn from_json(j: &Json) -> Result<Self, json::Error> { Ok(X(j.clone())) } }
#[derive(JsonEncode, JsonDecode)]
struct S { a: Option<X>, b: X }
fn w() { both::<S>(); }
