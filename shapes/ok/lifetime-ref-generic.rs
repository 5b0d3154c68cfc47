struct P<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> ToJson for P<T> { fn to_json(&self) -> Json { Json::Null } }
impl<T: ?Sized> FromJson for P<T> { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(P(PhantomData)) } }
#[derive(JsonEncode, JsonDecode)]
struct S<'a> { a: P<&'a str>, b: P<&'a mut u8>, c: Vec<P<&'a [u8]>>, d: P<P<&'static str>> }
fn w() { both::<S<'static>>(); }
