struct PhantomWrap<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> ToJson for PhantomWrap<T> { fn to_json(&self) -> Json { Json::Null } }
impl<T: ?Sized> FromJson for PhantomWrap<T> { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(PhantomWrap(PhantomData)) } }
#[derive(JsonEncode, JsonDecode)]
struct S<T: ?Sized> { a: PhantomWrap<T> }
fn w() { both::<S<str>>(); }
