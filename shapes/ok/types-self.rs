#[derive(JsonEncode, JsonDecode)]
struct S { a: Vec<S>, b: HashMap<String, S>, c: Option<Vec<Self>> }
fn w() { both::<S>(); }
