#[derive(JsonDecode)]
struct S<T>(T) where T: ToJson + FromJson;
//--- control
#[derive(JsonDecode)]
pub struct S<T: ToJson + FromJson> { pub a: T, b: Vec<T> }
