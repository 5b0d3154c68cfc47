#[derive(JsonEncode, JsonDecode)]
struct S { a: Vec<i32>, b: Vec<Vec<Vec<String>>>, c: HashMap<String, Vec<bool>>, d: Vec<(String, i32)>, e: Option<Vec<Option<u8>>> }
fn w() { both::<S>(); }
