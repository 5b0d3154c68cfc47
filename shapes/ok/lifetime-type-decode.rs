struct P<T>(PhantomData<T>);
impl<T> ToJson for P<T> { fn to_json(&self) -> Json { Json::Null } }
impl<T> FromJson for P<T> { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(P(PhantomData)) } }
#[derive(JsonEncode, JsonDecode)]
struct S<'a, T: 'a + ToJson + FromJson> { a: T, b: P<&'a T> }
fn w() { both::<S<'static, u8>>(); }
