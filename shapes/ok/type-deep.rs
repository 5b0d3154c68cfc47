struct P<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> ToJson for P<T> { fn to_json(&self) -> Json { Json::Null } }
impl<T: ?Sized> FromJson for P<T> { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(P(PhantomData)) } }
#[derive(JsonEncode, JsonDecode)]
struct S { x: i32, a: P<Option<Vec<HashMap<String, Vec<(u8, [Option<Box<i32>>; 3])>>>>> }
fn w() { both::<S>(); }
