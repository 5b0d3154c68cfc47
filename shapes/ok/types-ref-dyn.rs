struct P<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> ToJson for P<T> { fn to_json(&self) -> Json { Json::Null } }
#[derive(JsonEncode)]
struct S<'a> { a: P<&'a (dyn Fn(i32) -> u8 + 'a)>, b: P<&'static dyn std::fmt::Debug> }
fn w() { enc::<S<'static>>(); }
