#[derive(JsonEncode)]
pub struct S<T: ToJson + FromJson>(pub T, Vec<T>) where T: Clone;
//--- control
#[derive(JsonEncode)]
pub struct S<T: ToJson + FromJson> { pub a: T, b: Vec<T> }
