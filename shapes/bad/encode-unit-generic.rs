#[derive(JsonEncode)]
struct S<T>(T) where T: ToJson + FromJson;
//--- control
#[derive(JsonEncode)]
pub struct S<T: ToJson + FromJson> { pub a: T, b: Vec<T> }
