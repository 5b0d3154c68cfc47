#[derive(JsonEncode, JsonDecode)]
struct T { x: i32 }
#[derive(JsonEncode, JsonDecode)]
struct Box2<U: ToJson + FromJson> { x: U }
#[derive(JsonEncode, JsonDecode)]
struct S { a: T, b: Vec<T>, c: Option<Box2<T>>, d: HashMap<String, T> }
fn w() { both::<S>(); }
